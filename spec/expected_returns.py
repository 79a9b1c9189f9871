"""C12 expected-return estimators, C13 prices and returns, C14 return_model dispatch."""
import warnings

import numpy as np
import pandas as pd
from pypfopt import expected_returns as er
from spec.common import frame, simple_returns, returns_of, flag_bad_returns


class ReturnsFromPrices:
    prop = "C13"

    def code(p: "df|ser", lr: "bool"):
        return {"value": er.returns_from_prices(p, lr), "named": er.returns_from_prices(p, log_returns=lr),
                "default": er.returns_from_prices(p)}

    def want(p, lr):
        return {"value": simple_returns(p, lr), "named": simple_returns(p, lr), "default": simple_returns(p, False)}


class PricesFromReturns:
    prop = "C13"

    def code(r: "df|ser", lr: "bool"):
        return {"value": er.prices_from_returns(r, lr), "default": er.prices_from_returns(r)}

    def want(r, lr):
        def price(growth):
            growth.iloc[0] = 1
            return growth.cumprod()
        return {"value": price(np.exp(r) if lr else r + 1), "default": price(r + 1)}


class MeanHistorical:
    prop = "C12"

    def code(p: "df|arr2", rd: "bool", comp: "bool", freq: "int", lr: "bool"):
        return {"value": er.mean_historical_return(p, returns_data=rd, compounding=comp, frequency=freq, log_returns=lr)}

    def want(p, rd, comp, freq, lr):
        r = returns_of(frame(p), rd, lr)
        flag_bad_returns(r)
        if comp:
            growth = (1 + r).prod()
            return {"value": growth ** (freq / r.count()) - 1}
        return {"value": freq * r.mean()}


class MeanHistoricalPositional:
    prop = "C12"

    def code(p: "df", rd: "bool", comp: "bool", freq: "int", lr: "bool"):
        return {"value": er.mean_historical_return(p, rd, comp, freq, lr)}

    def want(p, rd, comp, freq, lr):
        return {"value": er.mean_historical_return(p, returns_data=rd, compounding=comp, frequency=freq, log_returns=lr)}


class MeanHistoricalDefault:
    prop = "C12"

    def code(p: "df"):
        return {"value": er.mean_historical_return(p)}

    def want(p):
        r = simple_returns(p, False)
        flag_bad_returns(r)
        return {"value": (1 + r).prod() ** (252 / r.count()) - 1}


class EmaHistorical:
    prop = "C12"
    definite = ["len"]

    def code(p: "df|arr2", rd: "bool", comp: "bool", span: "int", freq: "int", lr: "bool"):
        return {"value": er.ema_historical_return(p, returns_data=rd, compounding=comp, span=span, frequency=freq, log_returns=lr)}

    def want(p, rd, comp, span, freq, lr):
        r = returns_of(frame(p), rd, lr)
        flag_bad_returns(r)
        daily = r.ewm(span=span).mean().iloc[-1]
        return {"value": (daily + 1) ** freq - 1 if comp else daily * freq}


class EmaHistoricalDefault:
    prop = "C12"
    definite = ["len"]

    def code(p: "df"):
        return {"value": er.ema_historical_return(p)}

    def want(p):
        r = simple_returns(p, False)
        flag_bad_returns(r)
        return {"value": (r.ewm(span=500).mean().iloc[-1] + 1) ** 252 - 1}


class Capm:
    """risk_free + beta * (market - risk_free); beta from the sample covariance with the market."""
    prop = "C12"
    definite = ["len"]

    def code(p: "df|arr2", m: "df|arr2", rd: "bool", rf: "float", comp: "bool", freq: "int", lr: "bool"):
        return {"value": er.capm_return(p, m, returns_data=rd, risk_free_rate=rf, compounding=comp, frequency=freq, log_returns=lr)}

    kinds = {"m": "df"}

    def want(p, m, rd, rf, comp, freq, lr):
        r = returns_of(frame(p), rd, lr)
        if rd:
            mk = m.copy()
        else:
            mk = simple_returns(m, lr)
        mk.columns = ["mkt"]
        r = r.join(mk, how="left")
        flag_bad_returns(r)
        c = r.cov()
        beta = (c["mkt"] / c.loc["mkt", "mkt"]).drop("mkt")
        x = r["mkt"]
        ann = (1 + x).prod() ** (freq / x.count()) - 1 if comp else freq * x.mean()
        return {"value": rf + beta * (ann - rf)}


class CapmArrayMarket:
    prop = "C12"

    def code(p: "df", m: "arr2", comp: "bool", freq: "int", lr: "bool"):
        return {"value": er.capm_return(p, market_prices=m, compounding=comp, frequency=freq, log_returns=lr)}

    def want(p, m, comp, freq, lr):
        return {"value": er.capm_return(p, frame(m), False, 0.0, comp, freq, lr)}


class CapmNoMarket:
    """Without market data the market is the equally weighted portfolio."""
    prop = "C12"
    definite = ["len"]

    def code(p: "df|arr2", rd: "bool", rf: "float", comp: "bool", freq: "int", lr: "bool"):
        return {"value": er.capm_return(p, returns_data=rd, risk_free_rate=rf, compounding=comp, frequency=freq, log_returns=lr)}

    def want(p, rd, rf, comp, freq, lr):
        r = returns_of(frame(p), rd, lr)
        if rd:
            r = r.copy()
        r["mkt"] = r.mean(axis=1)
        flag_bad_returns(r)
        c = r.cov()
        beta = (c["mkt"] / c.loc["mkt", "mkt"]).drop("mkt")
        x = r["mkt"]
        ann = (1 + x).prod() ** (freq / x.count()) - 1 if comp else freq * x.mean()
        return {"value": rf + beta * (ann - rf)}


class CapmDefault:
    prop = "C12"

    def code(p: "df", m: "df"):
        return {"value": er.capm_return(p, m), "none": er.capm_return(p)}

    def want(p, m):
        return {"value": er.capm_return(p, m, False, 0, True, 252, False), "none": er.capm_return(p, None, False, 0, True, 252, False)}


class ReturnModel:
    prop = "C14"

    def code(p: "df", method: ["mean_historical_return", "ema_historical_return", "capm_return"], freq: "int", lr: "bool"):
        return {"value": er.return_model(p, method=method, frequency=freq, log_returns=lr), "plain": er.return_model(p, method)}

    def want(p, method, freq, lr):
        if method == "mean_historical_return":
            return {"value": er.mean_historical_return(p, frequency=freq, log_returns=lr), "plain": er.mean_historical_return(p)}
        elif method == "ema_historical_return":
            return {"value": er.ema_historical_return(p, frequency=freq, log_returns=lr), "plain": er.ema_historical_return(p)}
        return {"value": er.capm_return(p, frequency=freq, log_returns=lr), "plain": er.capm_return(p)}


class ReturnModelDefault:
    prop = "C14"

    def code(p: "df"):
        return {"value": er.return_model(p)}

    def want(p):
        return {"value": er.mean_historical_return(p)}


class ReturnModelUnknown:
    """Any other name is refused."""
    prop = "C14"
    raises = "C14"

    def code(p: "df", method: "str"):
        return {"value": er.return_model(p, method=method)}

    def want(p, method):
        known = {"mean_historical_return": er.mean_historical_return, "ema_historical_return": er.ema_historical_return,
                 "capm_return": er.capm_return}
        if method not in known:
            raise NotImplementedError(method)
        return {"value": known[method](p)}
