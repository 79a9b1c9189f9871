"""Arguments of the wrong type, on the entry points that document a type: C20."""
import cvxpy as cp
import numpy as np
from pypfopt import BlackLittermanModel, EfficientCDaR, EfficientCVaR, EfficientFrontier, EfficientSemivariance, exceptions
from spec.common import assume


class WrongMean:
    prop = "C20"

    def code(S: "df", R: "df", bad: ["text", "tuple", "dict", "frame"], who: ["ef", "semi", "cvar", "cdar"]):
        mu = "high" if bad == "text" else (0.1, 0.2) if bad == "tuple" else {"a": 0.1} if bad == "dict" else S
        if who == "ef":
            EfficientFrontier(mu, S)
        elif who == "semi":
            EfficientSemivariance(mu, R)
        elif who == "cvar":
            EfficientCVaR(mu, R)
        else:
            EfficientCDaR(mu, R)
        return {"value": 1}

    def want(S, R, bad, who):
        raise TypeError("expected returns")


class WrongMatrix:
    prop = "C20"

    def code(mu: "ser", bad: ["list", "text", "series"]):
        EfficientFrontier(mu, [[0.1, 0], [0, 0.1]] if bad == "list" else "cov" if bad == "text" else mu)
        return {"value": 1}

    def want(mu, bad):
        raise TypeError("covariance")


class MissingMatrix:
    prop = "C20"

    def code(mu: "ser"):
        EfficientFrontier(mu, None)
        return {"value": 1}

    def want(mu):
        raise ValueError("no covariance")


class WrongTarget:
    """Targets that are not numbers of the documented kind."""
    prop = "C20"
    skip = ["weights"]

    def code(mu: "ser", S: "df", R: "df", how: ["return", "risk", "rate", "semi"], bad: ["text", "none", "int"]):
        t = "0.1" if bad == "text" else None if bad == "none" else 0
        assume(bad != "int" or how in ("return", "semi"))
        if how == "return":
            EfficientFrontier(mu, S).efficient_return(t)
        elif how == "risk":
            EfficientFrontier(mu, S).efficient_risk(t)
        elif how == "rate":
            EfficientFrontier(mu, S).max_sharpe(t)
        else:
            EfficientSemivariance(mu, R).efficient_return(t)
        return {"value": 1}

    def want(mu, S, R, how, bad):
        assume(bad != "int" or how in ("return", "semi"))
        EfficientFrontier(mu, S) if how != "semi" else EfficientSemivariance(mu, R)
        raise ValueError("target")


class NoMeanNeeded:
    """Methods that need expected returns refuse an optimiser built without them."""
    prop = "C20"
    skip = ["weights"]

    def code(S: "df"):
        EfficientFrontier(None, S)._max_return()
        return {"value": 1}

    def want(S):
        raise ValueError("no expected returns")


class NotCallable:
    prop = "C20"

    def code(mu: "ser", S: "df", bad: ["text", "number", "none", "array"]):
        ef = EfficientFrontier(mu, S)
        ef.add_constraint("w >= 0" if bad == "text" else 1.0 if bad == "number" else None if bad == "none" else np.array([1.0, 2.0]))
        return {"value": 1}

    def want(mu, S, bad):
        EfficientFrontier(mu, S)
        raise TypeError("constraint")


class NotSolved:
    prop = "C20"

    def code(mu: "ser", S: "df"):
        return {"value": EfficientFrontier(mu, S).clean_weights()}

    def want(mu, S):
        EfficientFrontier(mu, S)
        raise AttributeError("no weights")


class WrongViews:
    prop = "C20"

    def code(S: "df", P: "arr2", Q: "arr1", bad: ["absolute", "absolute_number", "Q", "P", "pi", "omega", "omega_number", "confidences"]):
        if bad == "absolute":
            BlackLittermanModel(S, absolute_views=[0.1, 0.2])
        elif bad == "absolute_number":
            BlackLittermanModel(S, absolute_views=0.1)
        elif bad == "Q":
            BlackLittermanModel(S, Q=[0.1, 0.2], P=P)
        elif bad == "P":
            assume(len(Q) != len(S))
            BlackLittermanModel(S, Q=Q, P="picking")
        elif bad == "pi":
            BlackLittermanModel(S, Q=Q, P=P, pi=[0.1, 0.2])
        elif bad == "omega":
            BlackLittermanModel(S, Q=Q, P=P, omega="guess")
        elif bad == "omega_number":
            BlackLittermanModel(S, Q=Q, P=P, omega=0.1)
        else:
            BlackLittermanModel(S, Q=Q, P=P, omega="idzorek")
        return {"value": 1}

    def want(S, P, Q, bad):
        if bad == "P":
            assume(len(Q) != len(S))
        if bad == "omega" or bad == "omega_number" or bad == "confidences":
            BlackLittermanModel(S, Q=Q, P=P)
        if bad == "confidences":
            raise ValueError("confidences")
        raise TypeError("views")


class CustomAgain:
    """A second custom objective on a solved instance is refused, also when nothing is added to the constraints."""
    prop = "C04"
    skip = ["weights"]

    def code(mu: "ser", S: "df", f: "objfn", g: "objfn", one: [True, False], first: ["custom", "min"]):
        ef = EfficientFrontier(mu, S)
        if first == "custom":
            ef.convex_objective(f, weights_sum_to_one=one)
        else:
            ef.min_volatility()
        ef.convex_objective(g, weights_sum_to_one=False)
        return {"value": 1}

    def want(mu, S, f, g, one, first):
        ef = EfficientFrontier(mu, S)
        if first == "custom":
            ef.convex_objective(f, weights_sum_to_one=one)
        else:
            ef.min_volatility()
        raise exceptions.InstantiationError("already solved")


class Parameters:
    """Named parameters in user constraints can be queried and updated; unknown and ambiguous names are refused."""
    prop = "C05"
    map = {"raises:InstantiationError": "C05"}

    def code(mu: "ser", S: "df", t: "float", how: ["known", "unknown", "unknown_update", "twice", "none"]):
        ef = EfficientFrontier(mu, S)
        a = cp.Parameter(name="cap", value=0.5)
        b = cp.Parameter(name="cap" if how == "twice" else "floor", value=0.1)
        if how != "none":
            ef.add_constraint(lambda w: w <= a)
            ef.add_constraint(lambda w: w >= b)
        if how == "unknown":
            return {"value": ef.is_parameter_defined("limit")}
        if how == "unknown_update":
            ef.update_parameter_value("limit", t)
        elif how == "known":
            ef.update_parameter_value("floor", t)
            return {"value": (ef.is_parameter_defined("cap"), ef.is_parameter_defined("floor"), a.value, b.value)}
        return {"value": ef.is_parameter_defined("cap")}

    def want(mu, S, t, how):
        EfficientFrontier(mu, S)
        if how == "known":
            return {"value": (True, True, 0.5, t)}
        if how == "unknown_update" or how == "twice":
            raise exceptions.InstantiationError("parameter")
        return {"value": False}
