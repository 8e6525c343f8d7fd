"""Rational numbers as the code under contract uses them (the real library is used when the code is run)."""


class Fraction(object):
    def __init__(self, numerator=0, denominator=1):
        self.numerator = numerator
        self.denominator = denominator

    def __add__(self, other):
        if isinstance(other, Fraction):
            return Fraction(self.numerator * other.denominator + other.numerator * self.denominator, self.denominator * other.denominator)
        return Fraction(self.numerator + other * self.denominator, self.denominator)

    __radd__ = __add__
