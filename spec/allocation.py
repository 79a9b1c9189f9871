"""Turning weights into whole shares."""
import collections

import cvxpy as cp
import numpy as np
import pandas as pd
from pypfopt import DiscreteAllocation, exceptions
from pypfopt.discrete_allocation import get_latest_prices
from spec.common import assume


def inputs(weights, prices, value, short_ratio):
    """Documented preconditions of an allocation."""
    if not isinstance(weights, dict):
        raise TypeError("weights")
    for v in weights.values():
        if np.isnan(v):
            raise ValueError("weights")
    if not isinstance(prices, pd.Series):
        raise TypeError("prices")
    if any(np.isnan(prices)):
        raise TypeError("prices")
    if value <= 0:
        raise ValueError("value")
    if short_ratio is not None and short_ratio < 0:
        raise ValueError("short_ratio")


def milp(pairs, prices, value, solver):
    """Whole shares minimising the distance to the ideal amounts plus the unspent cash."""
    n = len(pairs)
    p = np.array([prices[t] for t, w in pairs])
    w = np.fromiter([w for t, w in pairs], dtype=float)
    x = cp.Variable(n, integer=True)
    u = cp.Variable(n)
    cash = value - p @ x
    gap = w * value - cp.multiply(x, p)
    prob = cp.Problem(cp.Minimize(cp.sum(u) + cash), [gap <= u, -u <= gap, x >= 0, cash >= 0])
    prob.solve(solver=solver)
    if prob.status not in ("optimal", "optimal_inaccurate"):
        raise exceptions.OptimizationError("greedy")
    shares = np.rint(x.value).astype(int)
    out = {}
    for (t, _), k in zip(pairs, shares):
        if int(k) != 0:
            out[t] = int(k)
    return out, cash.value


class LongOnlyLp:
    prop = "C19"
    map = "shares"

    def given(weights):
        return all(w >= 0 for w in weights.values())

    def code(weights: "numdict", prices: "ser", value: "float", reinvest: "bool"):
        d = DiscreteAllocation(weights, prices, total_portfolio_value=value)
        a, left = d.lp_portfolio(reinvest=reinvest, solver="ECOS_BB")
        return {"shares": a, "left": left, "attr": d.allocation}

    def want(weights, prices, value, reinvest):
        inputs(weights, prices, value, None)
        a, left = milp(list(weights.items()), prices, value, "ECOS_BB")
        return {"shares": a, "left": left, "attr": a}


def split(pairs, prices, value, short_ratio, reinvest, buy):
    """Longs and shorts are normalised apart; shorting raises short_ratio of the value in cash."""
    longs = {t: w for t, w in pairs if w >= 0}
    shorts = {t: -w for t, w in pairs if w < 0}
    nl = sum(longs.values())
    ns = sum(shorts.values())
    lw = {t: w / nl for t, w in longs.items()}
    sw = {t: w / ns for t, w in shorts.items()}
    ratio = sum(-w for t, w in pairs if w < 0) if short_ratio is None else short_ratio
    credit = value * ratio
    fund = value + credit if reinvest else value
    inputs(lw, prices[lw.keys()], fund, None)
    a, left = buy(lw, prices[lw.keys()], fund)
    inputs(sw, prices[sw.keys()], credit, None)
    b, rest = buy(sw, prices[sw.keys()], credit)
    out = dict(a)
    for t, k in b.items():
        out[t] = -k
    out = {t: k for t, k in out.items() if k != 0}
    return {"shares": out, "left": left + rest, "attr": out}


class LongShortLp:
    prop = "C19"
    map = "shares"

    def given(weights):
        return any(w < 0 for w in weights.values())

    def code(weights: "numdict", prices: "ser", value: "float", ratio: "float|none", reinvest: "bool", solver: "str"):
        d = DiscreteAllocation(weights, prices, total_portfolio_value=value, short_ratio=ratio)
        a, left = d.lp_portfolio(reinvest=reinvest, solver=solver)
        return {"shares": a, "left": left, "attr": d.allocation}

    def want(weights, prices, value, ratio, reinvest, solver):
        inputs(weights, prices, value, ratio)
        return split(list(weights.items()), prices, value, ratio, reinvest, lambda d, p, v: milp(list(d.items()), p, v, solver))


class Latest:
    prop = "C19"

    def code(prices: "df|arr2|ser"):
        return {"value": get_latest_prices(prices)}

    def want(prices):
        if not isinstance(prices, pd.DataFrame):
            raise TypeError("prices")
        return {"value": prices.ffill().iloc[-1]}


def greedy(pairs, prices, value):
    """Round every ideal position down, then keep buying the asset furthest below its weight."""
    cash = value
    held = []
    paid = []
    for t, w in pairs:
        p = prices[t]
        k = int(w * value / p)
        if k * p > cash:
            raise AssertionError("funds")
        cash = cash - k * p
        held.append(k)
        paid.append(p)
    while cash > 0:
        now = np.array(paid) * np.array(held)
        now = now / now.sum()
        gap = np.array([w for t, w in pairs]) - now
        j = np.argmax(gap)
        p = prices[pairs[j][0]]
        tries = 0
        while p > cash:
            # too expensive: the next largest deficit, ten times at most
            gap[j] = 0
            j = np.argmax(gap)
            if gap[j] < 0 or tries == 10:
                break
            p = prices[pairs[j][0]]
            tries += 1
        if gap[j] <= 0 or tries == 10:
            break
        held[j] += 1
        cash = cash - p
    out = {}
    for (t, _), k in zip(pairs, held):
        if k != 0:
            out[t] = k
    return out, cash


def descending(d):
    return sorted(d.items(), key=lambda x: x[1], reverse=True)


class LongOnlyGreedy:
    prop = "C19"
    definite = ["getiloc", "iloc"]

    def given(weights):
        return all(w >= 0 for w in weights.values())

    def code(weights: "numdict", prices: "ser", value: "float", reinvest: "bool"):
        d = DiscreteAllocation(weights, prices, total_portfolio_value=value)
        a, left = d.greedy_portfolio(reinvest=reinvest)
        return {"shares": a, "left": left, "attr": d.allocation}

    def want(weights, prices, value, reinvest):
        inputs(weights, prices, value, None)
        a, left = greedy(descending(weights), prices, value)
        return {"shares": a, "left": left, "attr": a}


class LongShortGreedy:
    prop = "C19"

    def given(weights):
        return any(w < 0 for w in weights.values())

    def code(weights: "numdict", prices: "ser", value: "float", ratio: "float|none", reinvest: "bool"):
        d = DiscreteAllocation(weights, prices, total_portfolio_value=value, short_ratio=ratio)
        a, left = d.greedy_portfolio(reinvest=reinvest)
        return {"shares": a, "left": left, "attr": d.allocation}

    def want(weights, prices, value, ratio, reinvest):
        inputs(weights, prices, value, ratio)
        return split(descending(weights), prices, value, ratio, reinvest, lambda d, p, v: greedy(descending(d), p, v))


class AllocationReport:
    """Verbose allocations report the cash left, the allocation and its error, and return the same allocation."""
    prop = "C21"
    map = "report"

    def given(weights):
        return all(w >= 0 for w in weights.values())

    def code(weights: "numdict", prices: "ser", verbose: "bool", lp: [True, False]):
        d = DiscreteAllocation(weights, prices)
        if lp:
            a, left = d.lp_portfolio(verbose=verbose, solver="ECOS_BB")
        else:
            a, left = d.greedy_portfolio(verbose=verbose)
        return {"shares": a, "left": left}

    def want(weights, prices, verbose, lp):
        inputs(weights, prices, 10000, None)
        if lp:
            a, left = milp(list(weights.items()), prices, 10000, "ECOS_BB")
        else:
            a, left = greedy(descending(weights), prices, 10000)
        if verbose:
            print(f"{left}")
            rmse(list(weights.items()) if lp else descending(weights), prices, a, True)
        return {"shares": a, "left": left}


class AllocationInputs:
    prop = "C20"

    def code(weights: "numdict|ser|list|none", prices: "ser|list|df|none|numdict", value: "float", ratio: "float|none"):
        d = DiscreteAllocation(weights, prices, value, ratio)
        return {"value": d.total_portfolio_value}

    def want(weights, prices, value, ratio):
        inputs(weights, prices, value, ratio)
        return {"value": value}


def rmse(pairs, prices, held, verbose):
    total = sum(k * prices[t] for t, k in held.items())
    s = 0
    for t, w in pairs:
        share = held[t] * prices[t] / total if t in held else 0
        s += (w - share) ** 2
        if verbose:
            print(f"{t} {share} {w}")
    e = np.sqrt(s / len(pairs))
    print(f"{e}")
    return e


class AllocationError:
    """Root mean square distance between the weights bought and the weights asked for."""
    prop = "C19"
    map = {"printed": "C19"}

    def code(weights: "numdict", prices: "ser", held: "numdict", verbose: "bool"):
        d = DiscreteAllocation(weights, prices)
        d.allocation = held
        return {"value": d._allocation_rmse_error(verbose)}

    def want(weights, prices, held, verbose):
        inputs(weights, prices, 10000, None)
        return {"value": rmse(list(weights.items()), prices, held, verbose)}
