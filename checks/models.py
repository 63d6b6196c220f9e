"""The model libraries behind the surrogates (scikit-learn, pyearth), replaced at their public interface by arbitrary models."""
import sys
import types

from checks.common import *

LB = [-3.0, 1.0, 0.0]
UB = [5.0, 2.5, 10.0]


def bounds(dim, ints=False):
    if ints:  # arrays of integers, as a user may write them
        return np.array([-3, 1, 0][:dim]), np.array([5, 3, 10][:dim])
    return np.array(LB[:dim]), np.array(UB[:dim])


class Lib:
    """Records what the libraries are asked; predictions are arbitrary values (or given ones)."""

    def __init__(self, env):
        self.env, self.fits, self.queries, self.values, self.stds = env, [], [], None, None
        lib = self

        import sklearn.gaussian_process as g
        import sklearn.pipeline as p

        def values(n, kind):
            v = lib.values if kind == "mean" else lib.stds
            if v is not None:
                return env.arr(list(v)[:n])
            return env.arr([env.real(kind, -10, 10) if kind == "mean" else env.real(kind, 0, 10) for _ in range(n)])

        def fit(model, X, y, *a, **k):
            lib.fits.append((model, X.copy(), y.copy()))
            if isinstance(model, g.GaussianProcessRegressor):  # what a fitted model shows
                model.X_train_, model.y_train_, model.n_features_in_, model.kernel_ = X.copy(), y.copy(), X.shape[1], model.kernel
            return model

        def predict(model, X, return_std=False, **k):
            env.check(lib.fits and lib.fits[-1][0] is model, "a model is asked before it is fitted")
            m = values(len(X), "mean")
            s = values(len(X), "std") if return_std else None
            lib.queries.append((X.copy(), m.copy(), None if s is None else s.copy()))
            return (m, s) if return_std else m

        def predict_col(model, X, **k):
            return A.wrap(A._obj(predict(model, X)).reshape(-1, 1), "f") if env.symbolic else predict(model, X).reshape(-1, 1)

        env.patch(g.GaussianProcessRegressor, "fit", fit)
        env.patch(g.GaussianProcessRegressor, "predict", predict)
        env.patch(p.Pipeline, "fit", fit)
        env.patch(p.Pipeline, "predict", predict_col)
        self.earth = types.ModuleType("pyearth")

        class Earth:
            pass

        Earth.fit, Earth.predict = fit, predict
        self.earth.Earth = Earth

    def make(self, kind, dim, transformation=None, ints=False):
        from pySOT import surrogate as S

        lb, ub = bounds(dim, ints)
        old = sys.modules.get("pyearth")
        sys.modules["pyearth"] = self.earth
        try:
            return getattr(S, kind)(dim=dim, lb=lb, ub=ub, output_transformation=transformation)
        finally:
            if old is None:
                del sys.modules["pyearth"]
            else:
                sys.modules["pyearth"] = old
