"""Sequences of operations on the semivariance optimiser: C04 lifecycle, C03 failure, C05 after a failure."""
import cvxpy as cp
import numpy as np
import pandas as pd
from pypfopt import EfficientSemivariance, exceptions
from spec.common import assume
from spec.portfolio import settled
from spec.tail_risk import Semi


def build(mu, R, lo, hi):
    return EfficientSemivariance(mu, R, weight_bounds=(lo, hi))


class Tail:
    """The semivariance problem."""

    def __init__(self, mu, R, lo, hi):
        self.p = Semi(mu, R, lo, hi)
        self.value, self.cons = self.p.risk(0)

    def check(self, method, t, neutral=False, extra=[]):
        if method == "utility" and t <= 0:
            raise ValueError("risk aversion")
        if method == "return":
            self.p.reachable(t, neutral, extra)

    def solve(self, method, t, neutral, extra):
        p = self.p
        self.check(method, t, neutral, extra)
        cons = p.limits(neutral) + self.cons + extra
        if method == "return":
            return p.minimise(self.value, cons + [p.ret() >= t])
        if method == "risk":
            return p.minimise(-p.ret(), cons + [252 * self.value <= t ** 2])
        if method == "utility":
            return p.minimise(0.5 * t * self.value - p.ret() / 252, cons)
        return p.minimise(self.value, cons)


def do(e, method, t, neutral):
    if method == "return":
        return e.efficient_return(t, neutral)
    if method == "risk":
        return e.efficient_risk(t, neutral)
    if method == "utility":
        return e.max_quadratic_utility(t, neutral)
    return e.min_semivariance(neutral)


class TailNeutralitySwitch:
    prop = "C04"
    skip = ["weights"]

    def code(mu: "ser", R: "df", method: ["risk", "return", "utility"], a: [True, False], b: [True, False],
             t: "float", u: "float"):
        assume(a != b and u > 0)
        e = build(mu, R, -1, 1)
        do(e, method, t, a)
        do(e, method, u, b)
        return {"weights": 1}

    def want(mu, R, method, a, b, t, u):
        assume(a != b and u > 0)
        p = Tail(mu, R, -1, 1)
        p.solve(method, t, a, [])
        p.check(method, u, a)
        raise exceptions.InstantiationError("market neutrality")


class TailOtherMethod:
    prop = "C04"
    skip = ["weights"]

    def code(mu: "ser", R: "df", first: ["risk", "return", "utility", "min"],
             then: ["risk", "return", "utility", "min"], t: "float", u: "float"):
        assume(first != then or first == "min")
        e = build(mu, R, 0, 1)
        do(e, first, t, False)
        do(e, then, u, False)
        return {"weights": 1}

    def want(mu, R, first, then, t, u):
        assume(first != then or first == "min")
        p = Tail(mu, R, 0, 1)
        p.solve(first, t, False, [])
        if then == "return" and u < 0 or then == "utility" and u <= 0:
            raise ValueError("target")
        raise exceptions.InstantiationError("already solved")


class TailAddAfterSolve:
    prop = "C04"
    skip = ["weights"]

    def code(mu: "ser", R: "df", first: ["risk", "return", "utility", "min"],
             what: ["objective", "constraint"], t: "float", f: "objfn", c: "confn"):
        e = build(mu, R, 0, 1)
        do(e, first, t, False)
        if what == "objective":
            e.add_objective(f)
        else:
            e.add_constraint(c)
        return {"weights": 1}

    def want(mu, R, first, what, t, f, c):
        p = Tail(mu, R, 0, 1)
        p.solve(first, t, False, [])
        raise exceptions.InstantiationError("already solved")


class TailNoWeightsOnFailure:
    prop = "C03"

    def code(mu: "ser", R: "df", how: ["risk", "return", "utility", "min"], t: "float", c: "confn"):
        e = build(mu, R, 0, 1)
        e.add_constraint(c)
        failed = False
        try:
            do(e, how, t, False)
        except exceptions.OptimizationError:
            failed = True
        return {"failed": failed, "weights": e.weights}

    def want(mu, R, how, t, c):
        p = Tail(mu, R, 0, 1)
        failed = False
        w = None
        try:
            p.solve(how, t, False, [c(p.p.w)])
            w = settled(p.p.w.value)
        except exceptions.OptimizationError:
            failed = True
        return {"failed": failed, "weights": w}


class TailRetryAfterFailure:
    prop = "C05"
    map = "again"

    def code(mu: "ser", R: "df", how: ["risk", "return", "utility"], t: "float", u: "float", c: "confn"):
        e = build(mu, R, 0, 1)
        e.add_constraint(c)
        try:
            do(e, how, t, False)
        except exceptions.OptimizationError:
            pass
        second = do(e, how, u, False)
        return {"second": second, "attr": e.weights}

    def want(mu, R, how, t, u, c):
        p = Tail(mu, R, 0, 1)
        try:
            p.solve(how, t, False, [c(p.p.w)])
        except exceptions.OptimizationError:
            pass
        second = p.solve(how, u, False, [c(p.p.w)])
        return {"second": second, "attr": settled(p.p.w.value)}
