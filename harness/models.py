""" Reference models shared by several properties.

These are independent re-statements of the documented behaviour, written
for obviousness (loops and sums over plain numbers). They don't import
anything from `forecaster`.
"""
import math


# ------------------------------------------------------------- inflation

class Inflation:
    """ Cumulative inflation built from per-year rates. """

    def __init__(self, first_year, rates):
        self.first_year = first_year
        self.rates = {first_year + i: r for i, r in enumerate(rates)}
        self.years = list(range(first_year, first_year + len(rates) + 1))
        self.index = {first_year: 1.0}
        for year in sorted(self.rates):
            self.index[year + 1] = self.index[year] * (1 + self.rates[year])

    def adjust(self, target_year, base_year=None):
        if base_year is None:
            base_year = self.first_year
        return self.index[target_year] / self.index[base_year]


def nearest(years, year):
    past = [y for y in years if y <= year]
    return max(past) if past else min(years)


# ------------------------------------------------------------------- tax

def bracket_tax(brackets, income):
    """ Tax on `income`; `brackets` is [(threshold, rate), ...]. """
    brackets = sorted(brackets)
    total = 0.0
    for i, (threshold, rate) in enumerate(brackets):
        top = brackets[i + 1][0] if i + 1 < len(brackets) else math.inf
        total += max(0.0, min(income, top) - threshold) * rate
    return total


def brackets_for(table, adjust, year):
    """ `table` is {year: [(threshold, rate), ...]}. """
    base = nearest(table, year)
    factor = 1.0 if base == year else adjust(year, base)
    return sorted((t * factor, r) for t, r in table[base])


def value_for(table, adjust, year):
    base = nearest(table, year)
    return table[base] * (1.0 if base == year else adjust(year, base))


# --------------------------------------------------------------- growth

def growth(rate, nper, t):
    """ Growth factor over a time `t` (in years). """
    if nper is None or nper == 0:      # continuous
        return math.exp(rate * t)
    return (1 + rate / nper) ** (nper * t)


def balance_at(balance, transactions, rate, nper, t):
    """ Value at `t` given [(time, amount), ...] transactions. """
    total = balance * growth(rate, nper, t)
    for when, amount in transactions:
        if when <= t:
            total += amount * growth(rate, nper, t - when)
    return total
