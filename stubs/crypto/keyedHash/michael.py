from cryptopy.hash.michael import Michael
