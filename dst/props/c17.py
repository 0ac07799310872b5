# coding=utf-8
"""C17: the id of a scikit-learn estimator follows its parameters and nothing else."""
import base64
import copy
import importlib
import inspect
import logging
import numbers
import os
import pickle
import pkgutil
import warnings

from .. import gen, node
from ..core import EXCS, HarnessError, Violation, rng_for
from ..runner import Prop
from .common import WHATAMI, INTERRUPTS, USER_ERRORS, maybe_fault, run_concurrently, sched, short
from .sklearn_classes import CLASSES

NSLOTS = 4
# What can be fitted in no time whatever the values of these parameters
FITTABLE = {
    'LogisticRegression': {'C': (.1, 1., 10.), 'penalty': ('l1', 'l2', 'no'), 'solver': ('liblinear',)},
    'Ridge': {'alpha': (.1, 1., 2), 'fit_intercept': (True, False)},
    'Lasso': {'alpha': (.1, 1.), 'fit_intercept': (True, False)},
    'LinearRegression': {'fit_intercept': (True, False), 'normalize': (True, False)},
    'SVC': {'C': (.1, 1., -1.), 'kernel': ('rbf', 'linear', 'no'), 'gamma': ('scale', .1)},
    'SVR': {'C': (.1, 1., 10.), 'kernel': ('rbf', 'linear'), 'gamma': ('scale', .1)},
    'LinearSVC': {'C': (.1, 1.), 'max_iter': (10, 20)},
    'KNeighborsClassifier': {'n_neighbors': (1, 2, 3), 'weights': ('uniform', 'distance', 'no')},
    'KNeighborsRegressor': {'n_neighbors': (1, 2, 3), 'p': (1, 2)},
    'GaussianNB': {'var_smoothing': (1e-9, .1)},
    'MultinomialNB': {'alpha': (.1, 1.), 'fit_prior': (True, False)},
    'BernoulliNB': {'alpha': (.1, 1.), 'binarize': (0., .5, None)},
    'DecisionTreeClassifier': {'max_depth': (1, 2, None, -1), 'criterion': ('gini', 'entropy', 'no')},
    'DecisionTreeRegressor': {'max_depth': (1, 2, None), 'min_samples_leaf': (1, 2)},
    'RandomForestClassifier': {'n_estimators': (1, 2), 'max_depth': (1, 2, None), 'random_state': (0, 1)},
    'ExtraTreesRegressor': {'n_estimators': (1, 2), 'bootstrap': (True, False), 'random_state': (0, 1)},
    'PCA': {'n_components': (1, 2, None, 50), 'whiten': (True, False)},
    'TruncatedSVD': {'n_components': (1, 2), 'random_state': (0, 1)},
    'StandardScaler': {'with_mean': (True, False), 'with_std': (True, False)},
    'MinMaxScaler': {'feature_range': ((0, 1), (-1, 1), (1, 0))},
    'Normalizer': {'norm': ('l1', 'l2', 'max', 'no')},
    'Binarizer': {'threshold': (0., .5)},
    'PolynomialFeatures': {'degree': (1, 2), 'include_bias': (True, False)},
    'MaxAbsScaler': {},
    'VarianceThreshold': {'threshold': (0., .01, 9.)},
    'DummyClassifier': {'strategy': ('stratified', 'prior', 'no'), 'random_state': (0, 1)},
    'DummyRegressor': {'strategy': ('mean', 'median', 'no')},
    'NearestCentroid': {'metric': ('euclidean', 'manhattan'), 'shrink_threshold': (None, .1)},
    'KernelRidge': {'alpha': (.1, 1.), 'kernel': ('linear', 'rbf')},
    'KMeans': {'n_clusters': (1, 2, 3, 50), 'n_init': (1, 2), 'random_state': (0, 1), 'max_iter': (2, 5)},
    'KernelDensity': {'bandwidth': (.1, 1.), 'kernel': ('gaussian', 'tophat')},
}
PLAIN = tuple(sorted(FITTABLE))
META = ('Pipeline', 'Pipeline', 'FeatureUnion', 'VotingClassifier', 'BaggingClassifier', 'OneVsRestClassifier',
        'MultiOutputRegressor', 'CalibratedClassifierCV', 'SelectFromModel', 'RFE', 'GridSearchCV', 'AdaBoostClassifier')
SPLITTERS = ('KFold', 'StratifiedKFold', 'ShuffleSplit', 'RepeatedStratifiedKFold', 'LeaveOneOut', 'LeavePOut',
             'TimeSeriesSplit', 'StratifiedShuffleSplit', 'GroupKFold', 'LeavePGroupsOut', 'LeaveOneGroupOut')
KERNELS = ('RBF', 'WhiteKernel', 'ConstantKernel', 'Matern', 'DotProduct', 'RationalQuadratic', 'ExpSineSquared')
VALUES = (None, True, False, 0, 1, 2, 7, .5, 1e-7, 100., 'a', 'auto', 'warn', "it's", '', [1, 2], (1, 'x'), {'a': 1}, {'k': [None]})
DESCRIBE = ('what', 'what', 'what', 'what2id', 'nested', 'list', 'dict', 'long', 'nonids', 'str', 'twice', 'obj2what')
USES = ('predict', 'transform', 'score', 'decision_function', 'predict_proba', 'fit_transform', 'partial_fit', 'split')

KLASSES = {}
ESTIMATORS = {}     # user defined


def resolved(x):
    """What fitting learns about the parameters."""
    for k in ('alpha', 'verbose', 'fail', 'n_jobs', 'scale', 'beta'):
        if hasattr(x, k):
            setattr(x, k + '_', 'learnt')
            setattr(x, '_' + k, 'learnt')


def define():
    """What users define on top of scikit-learn."""
    from sklearn.base import BaseEstimator, ClassifierMixin, TransformerMixin

    class UserClassifier(BaseEstimator, ClassifierMixin):
        """Its fit fails when told to."""
        def __init__(self, alpha=1.0, verbose=0, fail=None, n_jobs=1):
            self.alpha = alpha
            self.verbose = verbose
            self.fail = fail
            self.n_jobs = n_jobs

        def fit(self, X, y=None):
            self.seen_ = len(X)
            if self.fail:
                raise EXCS[self.fail]('fit')
            resolved(self)
            self.alpha_ = .5
            return self

        def predict(self, X):
            return [self.alpha_ > 1] * len(X)

    class UserTransformer(BaseEstimator, TransformerMixin):
        def __init__(self, scale=2, fail=None):
            self.scale = scale
            self.fail = fail

        def fit(self, X, y=None):
            self.fitted_ = True
            if self.fail == 'fit':
                raise ValueError('fit')
            resolved(self)
            return self

        def transform(self, X):
            if self.fail == 'transform':
                raise KeyError('transform')
            return X

    class UserStubborn(BaseEstimator):
        """Its parameters cannot always be asked for."""
        EXC, ONCE = None, False

        def __init__(self, alpha=1, beta='x'):
            self.alpha = alpha
            self.beta = beta

        def fit(self, X, y=None):
            resolved(self)
            return self

        def get_params(self, deep=True):
            exc = self.EXC
            if exc:
                if self.ONCE:
                    type(self).EXC = None
                raise EXCS[exc]('get_params')
            return super(UserStubborn, self).get_params(deep)

    class UserSubclass(KLASSES['Ridge']):
        """It adds a parameter."""
        def __init__(self, alpha=1.0, extra=3):
            super(UserSubclass, self).__init__(alpha=alpha)
            self.extra = extra

    class UserSplitter(KLASSES['LeaveOneOut']):
        """It has no get_params, and nobody has declared it."""
        def __init__(self, times=2, skip=None):
            self.times = times
            self.skip = skip

    for cls in (UserSplitter, UserClassifier, UserTransformer, UserStubborn, UserSubclass):
        cls.__qualname__ = cls.__name__
        globals()[cls.__name__] = cls
        ESTIMATORS[cls.__name__] = cls


def load():
    """Everything imported, but nothing whatamised."""
    if KLASSES:
        return
    logging.disable(logging.CRITICAL)
    # scikit-learn adds filters all the time
    real = warnings.simplefilter, warnings.filterwarnings
    warnings.simplefilter = warnings.filterwarnings = warnings.showwarning = lambda *_, **__: None
    warnings.filters.insert(0, ('ignore', None, Warning, None, 0))
    import numpy
    import sklearn
    for m in pkgutil.walk_packages(sklearn.__path__, 'sklearn.', onerror=lambda _: None):
        if '.tests' not in m.name and 'setup' not in m.name and 'conftest' not in m.name:
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
    for name, (module, _, _) in CLASSES.items():
        KLASSES[name] = getattr(importlib.import_module(module), name)
    warnings.simplefilter, warnings.filterwarnings = real
    numpy.seterr(all='ignore')
    define()


def whatamised():
    from sklearn.base import BaseEstimator
    return 'what' in BaseEstimator.__dict__


def preload():
    """For the other processes."""
    load()
    from whatami.wrappers.what_sklearn import whatamize_sklearn
    whatamize_sklearn()


# --- The id it must have

class Unknown(Exception):
    pass


def parameters(x):
    """The parameters of an object of scikit-learn."""
    if hasattr(type(x), 'get_params'):
        return {k: getattr(x, k, None) for k in type(x).get_params(x, deep=False)}
    return {k: v for k, v in vars(x).items() if not (k.startswith('_') or k.endswith('_'))}


def is_sk(x):
    return type(x).__module__.startswith('sklearn.') or type(x).__name__ in ESTIMATORS


def call_ref(x, nonids=False, longname=False):
    if x is None or isinstance(x, (bool, numbers.Integral)):
        return str(x)
    if isinstance(x, float):
        return repr(float(x))
    if isinstance(x, str):
        return gen.quote(x)
    if isinstance(x, list):
        return '[%s]' % ','.join(map(call_ref, x))
    if isinstance(x, tuple):
        return '(%s)' % ','.join(map(call_ref, x))
    if isinstance(x, dict):
        return '{%s}' % ','.join(sorted(call_ref(k) + ':' + call_ref(v) for k, v in x.items()))
    if isinstance(x, type):
        return "<class '%s.%s'>" % (x.__module__, x.__qualname__)
    if not is_sk(x):
        raise Unknown(type(x))
    name = type(x).__name__
    _, alias, ignored = CLASSES.get(name, (None, name, ()))
    conf = parameters(x)
    keys = sorted(k for k in conf if nonids or k not in ignored)
    return '%s(%s)' % (name if longname else alias, ','.join('%s=%s' % (k, call_ref(conf[k])) for k in keys))


# --- Estimators

def create(spec):
    """['LogisticRegression', {'C': value, 'base_estimator': {'est': [...]}}]"""
    name, params = spec
    cls = ESTIMATORS.get(name) or KLASSES[name]
    params = {k: decode(v) for k, v in params.items()}
    if name == 'Pipeline':
        params['steps'] = [(k, e if hasattr(e, 'fit') and (hasattr(e, 'transform') or k == params['steps'][-1][0]) else
                            ESTIMATORS['UserTransformer'](scale=e)) for k, e in params['steps']]
    if name == 'FeatureUnion':
        params['transformer_list'] = [(k, e if hasattr(e, 'fit') and hasattr(e, 'transform') else
                                       ESTIMATORS['UserTransformer'](scale=e)) for k, e in params['transformer_list']]
    try:
        return cls(**params)
    except ValueError:
        # some check their parameters right away
        return ESTIMATORS['UserTransformer'](scale=str(sorted(params)))


def decode(v):
    if isinstance(v, dict) and 'est' in v:
        return create(v['est'])
    if isinstance(v, dict) and 'steps' in v:
        return [(k, create(s)) for k, s in v['steps']]
    if isinstance(v, dict) and 'py' in v:
        return eval(v['py'], {})
    return v


def state(x, seen=None):
    """All about it, to know if it changed: attributes, and which objects they are."""
    if is_sk(x):
        return [type(x).__name__, [(k, id(v), state(v)) for k, v in sorted(vars(x).items())]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [(id(v), state(v)) for v in x]]
    if isinstance(x, dict):
        return [(k, id(v), state(v)) for k, v in sorted(x.items(), key=lambda kv: repr(kv[0]))]
    if hasattr(x, 'tobytes') and not isinstance(x, type):
        return x.tobytes()
    return repr(x) if isinstance(x, (int, float, str, type(None))) else id(x)


class C17(Prop):
    ID = 'C17'
    RUNS = {'quick': 1600, 'thorough': 40000}
    RULE = 'Each run is a history of 6-25 operations on four estimators, kernels, splitters or transformers of all the ' \
           'scikit-learn classes, user defined ones, pipelines and other compositions: setting and unsetting ' \
           'parameters, own and nested, fitting (also failing, or interrupted at any line of scikit-learn), ' \
           'predicting, transforming, splitting, cloning, copying, pickling, sending to another process, whatamising ' \
           'again, and describing in ten ways, also interrupted at any line. A third of the runs have 2-4 threads that ' \
           'describe shared estimators and change and describe their own, and whatamise scikit-learn, also for the ' \
           'first time.'
    REAL = ('whatami.wrappers.what_sklearn', 'whatami.what', 'whatami.plugins', 'whatami.misc', 'sklearn', 'numpy',
            'pickle', 'separate interpreters')
    STUB = ('interrupts', 'thread scheduler', 'user estimators', 'process restarts')
    GROUP = 4
    NEED_PROBES = ('described', 'set', 'nested-set', 'fitted', 'fit-failed', 'fit-interrupted', 'used', 'cloned', 'pickled',
                   'remote', 'interrupted', 'whatamised-again', 'first', 'first-interrupted', 'get_params-failed',
                   'concurrent', 'nonid-differs')
    ASSUMPTIONS = ('the parameters that cannot change results are those of dst/props/sklearn_classes.py, reviewed by '
                   'hand', 'scikit-learn itself runs as an atomic step except when a fault is injected in it',
                   'random_state is None or a number (C15 deals with generators)')

    def prepare(self):
        import whatami.whatutils      # noqa
        load()
        import whatami.wrappers.what_sklearn  # noqa
        import numpy as np
        import sklearn
        self.sklearn = os.path.dirname(sklearn.__file__) + os.sep
        rs = np.random.RandomState(0)
        self.X, self.y = np.abs(rs.rand(12, 3)), np.array([0, 1] * 6)
        self.groups = np.array([0, 1, 2] * 4)
        self.default = []
        for name in sorted(CLASSES):
            try:
                call_ref(KLASSES[name]())
                self.default.append(name)
            except (Unknown, TypeError):
                pass
        if len(self.default) < 120:
            raise HarnessError('too few classes of scikit-learn: %d' % len(self.default))
        self.addresses = [node.spawn(31 + 7919 * (getattr(self, 'seed', 1) % 1000), 'dst.props.c17')]
        node.wait_for(self.addresses)

    # --- plans

    def spec(self, rng, depth=1):
        r = rng.random()
        if depth and r < .3:
            name = rng.choice(META)
            one = lambda: {'est': self.spec(rng, 0 if rng.random() < .7 else depth - 1)}
            steps = lambda: {'steps': [[k, self.spec(rng, 0)] for k in 'abc'[:rng.randrange(1, 4)]]}
            if name == 'Pipeline':
                return [name, {'steps': steps()}]
            if name == 'FeatureUnion':
                return [name, {'transformer_list': steps(), 'n_jobs': 1}]
            if name == 'VotingClassifier':
                return [name, {'estimators': steps()}]
            if name in ('BaggingClassifier', 'AdaBoostClassifier'):
                return [name, {'base_estimator': one(), 'n_estimators': 2}]
            if name == 'CalibratedClassifierCV':
                return [name, {'base_estimator': one(), 'cv': 2}]
            if name == 'GridSearchCV':
                return [name, {'estimator': one(), 'param_grid': {'py': rng.choice(
                    ("{'alpha': [.1, 1.]}", "{'C': [1, 2]}", '{}'))}, 'cv': 2, 'iid': False}]
            return [name, {'estimator': one()}]
        if r < .6:
            name = rng.choice(PLAIN)
            return [name, {k: v for k, v in
                           ((k, self.pick(rng, name, k)) for k in sorted(FITTABLE[name]))
                           if rng.random() < .4}]
        if r < .7:
            name = rng.choice(sorted(ESTIMATORS))
            params = {}
            if name == 'UserClassifier' and rng.random() < .4:
                params['fail'] = rng.choice(USER_ERRORS + INTERRUPTS)
            if name == 'UserTransformer' and rng.random() < .4:
                params['fail'] = rng.choice(('fit', 'transform'))
            return [name, params]
        if r < .77:
            name = rng.choice(SPLITTERS)
            if name == 'LeavePOut':
                return [name, {'p': rng.choice((1, 2))}]
            if name == 'LeavePGroupsOut':
                return [name, {'n_groups': rng.choice((1, 2))}]
            return [name, {}]
        if r < .82:
            a, b = ([rng.choice(KERNELS), {}] for _ in 'ab')
            k = rng.random()
            if k < .4:
                return [rng.choice(('Sum', 'Product')), {'k1': {'est': a}, 'k2': {'est': b}}]
            if k < .6:
                return ['Exponentiation', {'kernel': {'est': a}, 'exponent': rng.choice((2, 3))}]
            if k < .8:
                return ['GaussianProcessRegressor', {'kernel': {'est': a}}]
            return a
        return [rng.choice(self.default), {}]

    @staticmethod
    def pick(rng, name, key):
        v = rng.choice(FITTABLE[name][key])
        return {'py': repr(v)} if isinstance(v, tuple) else v

    def make_plan(self, rng, index, tier):
        faults = []
        pfault = rng.choice((0, .15, .4))
        concurrent = index % self.GROUP == 0 and rng.random() < .5 or rng.random() < .2
        plan = {'faults': faults, 'first': index % self.GROUP == 0,
                'specs': [self.spec(rng) for _ in range(NSLOTS)]}
        if concurrent:
            # the first slot is shared, and nobody changes it; each of the others belongs to one thread
            threads, n = [], 0
            for t in range(rng.randrange(2, 4)):
                ops = []
                for i in range(rng.randrange(2, 7)):
                    op = {'id': n, 'slot': rng.choice((0, t + 1)), 'seed': rng.randrange(1 << 30)}
                    n += 1
                    r = rng.random()
                    if i == 0 and (r < .7 or plan['first']) or r < .1:
                        op.update(do='whatamize', check=False)
                        maybe_fault(rng, faults, op['id'], pfault, 250)
                    elif r < .35 and op['slot']:
                        op.update(do='set')
                    elif r < .4 and op['slot']:
                        op.update(do='fit', use=None)
                    else:
                        op.update(do='describe', how=rng.choice(DESCRIBE))
                        maybe_fault(rng, faults, op['id'], pfault, 150)
                    ops.append(op)
                threads.append(ops)
            plan.update(threads=threads, sched=sched(rng))
            return plan
        ops = []
        for i in range(rng.randrange(6, 26)):
            op = {'id': i, 'slot': rng.randrange(NSLOTS), 'other': rng.randrange(NSLOTS), 'seed': rng.randrange(1 << 30)}
            r = rng.random()
            if i == 0 and plan['first'] or r < .06:
                op.update(do='whatamize', check=rng.random() < .02)
                maybe_fault(rng, faults, i, max(pfault, .3), rng.choice((250, 600)))
            elif r < .1:
                op.update(do='create', spec=self.spec(rng))
            elif r < .27:
                op.update(do='set')
            elif r < .32:
                op.update(do='undo')
            elif r < .36:
                op.update(do='nonid')
            elif r < .5:
                op.update(do='fit', use=rng.choice(USES) if rng.random() < .6 else None)
                maybe_fault(rng, faults, i, pfault, rng.choice((40, 300)))
            elif r < .55:
                op.update(do=rng.choice(('clone', 'copy', 'deepcopy')))
            elif r < .6:
                op.update(do=rng.choice(('pickle', 'pickle', 'remote')), protocol=rng.choice((2, 3, 4, 5)))
            elif r < .63:
                op.update(do='stubborn', exc=rng.choice(USER_ERRORS + INTERRUPTS))
            else:
                op.update(do='describe', how=rng.choice(DESCRIBE))
                maybe_fault(rng, faults, i, pfault, 150)
            ops.append(op)
        plan['ops'] = ops
        return plan

    # --- operations

    @staticmethod
    def owners(x):
        """The objects with parameters reachable from it."""
        found, todo, seen = [], [x], set()
        while todo:
            x = todo.pop(0)
            if id(x) in seen:
                continue
            seen.add(id(x))
            if is_sk(x):
                found.append(x)
                todo.extend(v for _, v in sorted(parameters(x).items()))
            elif isinstance(x, (list, tuple)):
                todo.extend(x)
        return found

    @classmethod
    def change(cls, x, rng, only_nonid=False):
        """Changes one parameter of it, or of one of its parts, and says how to undo it (None if nothing to change)."""
        owners = cls.owners(x)
        y = rng.choice(owners)
        name = type(y).__name__
        params = parameters(y)
        ignored = CLASSES.get(name, (None, None, ()))[2]
        keys = sorted(k for k in params if not only_nonid or k in ignored)
        if not keys:
            return None
        key = rng.choice(keys)
        if not only_nonid and key in FITTABLE.get(name, ()):
            value = decode(cls.pick(rng, name, key))
        elif only_nonid or rng.random() < .7 and not is_sk(params[key]) and key not in (
                'steps', 'transformer_list', 'estimators'):
            value = rng.choice(VALUES)
        else:
            return None
        # many ways of setting it
        old = params[key]
        way = rng.randrange(3)
        if way == 0 and hasattr(y, 'set_params'):
            y.set_params(**{key: value})
        elif way == 1 and hasattr(x, 'set_params') and hasattr(y, 'set_params') and y is not x:
            path = [k for k, v in x.get_params(deep=True).items() if v is y]
            if path:
                x.set_params(**{'%s__%s' % (sorted(path)[0], key): value})
            else:
                setattr(y, key, value)
        else:
            setattr(y, key, value)

        def inverse():
            setattr(y, key, old)
        return inverse, y is not x

    @classmethod
    def can_fit(cls, x):
        """Only what takes no time, uses no other process and prints nothing."""
        for y in cls.owners(x):
            name = type(y).__name__
            params = parameters(y)
            if params.get('n_jobs', None) not in (None, 1) or params.get('verbose') or (
                    params.get('memory') is not None):       # it would write a cache
                return False
            if name in ESTIMATORS or name in META or name in SPLITTERS or name in KERNELS:
                continue
            if name not in FITTABLE:
                return False
            default = type(y)()
            for k, v in params.items():
                if k not in FITTABLE[name] and k not in ('verbose', 'n_jobs') and (
                        type(v) is not type(getattr(default, k)) or v != getattr(default, k)):
                    return False
        return True

    def fit(self, x, use):
        X, y = self.X, self.y
        if hasattr(x, 'split'):
            return list(x.split(X, y, self.groups))
        if not hasattr(x, 'fit'):
            return x(X)
        if use == 'fit_transform' and hasattr(x, use):
            return x.fit_transform(X, y)
        if use == 'partial_fit' and hasattr(x, use):
            return x.partial_fit(X, y)
        x.fit(X, y)
        if use == 'score' and hasattr(x, use):
            return x.score(X, y)
        if use and use not in ('split', 'partial_fit', 'fit_transform') and hasattr(x, use):
            return getattr(x, use)(X)

    @staticmethod
    def pickled(x, op):
        try:
            data = pickle.dumps(x, op['protocol'])
            pickle.loads(data)
            return data
        except Exception:
            return None     # e.g. half fitted trees

    @staticmethod
    def fake_fit(x, rng):
        """What fitting does to those that cannot be fitted here."""
        for k in ('coef_', 'n_iter_', 'classes_', 'estimators_', 'labels_', '_fit_X', 'scale_'):
            if rng.random() < .4 and not hasattr(type(x), k):
                setattr(x, k, rng.choice(VALUES))
        for k in sorted(parameters(x)):
            for name in (k + '_', '_' + k):
                if rng.random() < .2 and not hasattr(type(x), name) and not hasattr(x, name):
                    setattr(x, name, rng.choice(VALUES))

    @staticmethod
    def describer(x, how):
        """The call, and the id it must return."""
        from whatami import What, obj2what
        from whatami.whatutils import what2id
        r = call_ref(x)
        if how == 'what':
            return lambda: x.what().id(), r
        if how == 'what2id':
            return lambda: what2id(x), r
        if how == 'nested':
            return lambda: What('w', {'v': What('u', {'x': x}), 'b': 1}).id(), 'w(b=1,v=u(x=%s))' % r
        if how == 'list':
            return lambda: What('w', {'v': [x, (x,)]}).id(), 'w(v=[%s,(%s)])' % (r, r)
        if how == 'dict':
            return lambda: What('w', {'v': {'k': x}}).id(), "w(v={'k':%s})" % r
        if how == 'long':
            return lambda: x.what(use_short=False).id(), call_ref(x, longname=True)
        if how == 'nonids':
            return lambda: x.what().id(nonids_too=True), None
        if how == 'str':
            return lambda: str(x.what()), None
        if how == 'obj2what':
            def f(clf=x, z=3):
                return clf
            return lambda: obj2what(f).id(), 'f(clf=%s,z=3)' % r
        return lambda: [x.what().id(), x.what().copy().id()][1], r

    @staticmethod
    def top_nonids(x):
        return call_ref(x, nonids=True)

    def describe(self, sim, th, op, x, how):
        """Returns a function that describes it and checks the outcome."""
        fn, must = self.describer(x, how)
        before = state(x)

        def judge(out, fired):
            if state(x) != before:
                raise Violation('changed', 'describing %s (%s) changed it' % (short(must or type(x)), how))
            if out[0] == 'exc':
                if not fired:
                    raise Violation('error', 'describing (%s) %s raised %r' % (how, must or call_ref(x), out[1]))
                sim.probe('interrupted')
                return
            right = must if must is not None else self.top_nonids(x)
            if out[1] != right:
                raise Violation('wrong-id', '%s gives %s, must be %s' % (how, short(out[1], 900), short(right, 900)))
            sim.probe('described')
            if how in ('nonids', 'str') and right != call_ref(x):
                sim.probe('nonid-differs')
        return fn, judge

    @staticmethod
    def whatamize(check):
        from whatami.wrappers import what_sklearn
        what_sklearn.whatamize_sklearn(check=check)

    def first(self, sim, out):
        """After an attempt to whatamise for the first time."""
        if out[0] == 'ok' and not whatamised():
            raise Violation('not-whatamised', 'whatamize_sklearn did nothing')
        sim.probe('first' if out[0] == 'ok' else 'first-interrupted')

    def execute(self, plan, make_sim):
        concurrent = 'threads' in plan
        files = (WHATAMI,) if concurrent else (WHATAMI, self.sklearn)
        sim = make_sim(sched=plan.get('sched'), faults=plan['faults'], files=files)
        import numpy as np
        np.random.seed(3)
        if not plan['first']:
            self.whatamize(False)
        slots = [create(s) for s in plan['specs']]
        if concurrent:
            self.concurrently(sim, plan, slots)
        else:
            self.alone(sim, plan, slots)
        if sim.probes.get('described', 0) > 1:
            sim.probe('nontrivial')

    def concurrently(self, sim, plan, slots):
        ready = [whatamised()]
        judges = {}

        def perform(th, op):
            x = slots[op['slot']]
            do = op['do']
            if do == 'whatamize':
                def whatamize():
                    self.whatamize(False)
                    return 'done'
                return whatamize
            if do == 'set':
                def change():
                    try:
                        self.change(x, rng_for(op['seed']))
                    except (ValueError, TypeError):
                        pass
                return change
            if do == 'fit':
                return lambda: self.fake_fit(x, rng_for(op['seed']))
            fn, judge = self.describe(sim, th, op, x, op['how'])
            judges[op['id']] = judge, ready[0]
            return fn

        def after(op, out, fired):
            if op['do'] == 'whatamize':
                if out[0] == 'exc' and not fired:
                    raise Violation('error', 'whatamize_sklearn raised %r' % (out[1],))
                if not ready[0]:
                    self.first(sim, out)
                ready[0] = ready[0] or out[0] == 'ok'
            elif op['do'] == 'describe':
                judge, whatable = judges[op['id']]
                if not whatable and (out[0] == 'exc' or op['how'] not in ('what', 'long', 'nonids', 'str', 'twice') or
                                     len(self.owners(slots[op['slot']])) > 1):
                    return        # it, or some of its parts, may not have been whatable yet
                judge(out, fired)

        run_concurrently(sim, plan['threads'], perform, canon=str, after=after)
        sim.probe('concurrent')

    def alone(self, sim, plan, slots):
        from sklearn.base import clone
        th = sim.enter()
        undo = [[] for _ in slots]
        remote = node.Node(self.addresses[0])
        for op in plan['ops']:
            do, s = op['do'], op['slot']
            rng = rng_for(op['seed'])
            x = slots[s]
            if do != 'whatamize' and not whatamised() and do in ('describe', 'remote', 'stubborn', 'nonid'):
                # also an interrupted attempt can have left it ready
                self.whatamize(False)
            sim.event(do, s)
            if do == 'whatamize':
                already = whatamised()
                out, _, _, fired = sim.op(th, op['id'], lambda: self.whatamize(op['check']), canon=str)
                if out[0] == 'exc' and not fired:
                    raise Violation('error', 'whatamize_sklearn raised %r' % (out[1],))
                if already:
                    sim.probe('whatamised-again')
                else:
                    self.first(sim, out)
            elif do == 'create':
                slots[s] = create(op['spec'])
                undo[s] = []
            elif do == 'set':
                try:
                    got = self.change(x, rng)
                except (ValueError, TypeError):
                    continue
                if got is not None:
                    undo[s].append(got[0])
                    sim.probe('nested-set' if got[1] else 'set')
            elif do == 'undo':
                if undo[s]:
                    undo[s].pop()()
            elif do == 'nonid':
                before = call_ref(x)
                try:
                    got = self.change(x, rng, only_nonid=True)
                except (ValueError, TypeError):
                    continue
                if got is not None and call_ref(x) != before:
                    raise HarnessError('not a nonid')
            elif do == 'fit':
                ref_before = call_ref(x)
                if not self.can_fit(x):
                    self.fake_fit(x, rng)
                else:
                    out, _, _, fired = sim.op(th, op['id'], lambda: self.fit(x, op['use']) and None, canon=str)
                    sim.probe('fitted' if out[0] == 'ok' else 'fit-interrupted' if fired else 'fit-failed')
                    if op['use']:
                        sim.probe('used')
                if call_ref(x) != ref_before:
                    sim.probe('fit-changes-parameters')      # scikit-learn resolves n_estimators='warn'
            elif do in ('clone', 'copy', 'deepcopy'):
                y = slots[op['other']]
                try:
                    slots[s] = (clone(y, safe=False) if do == 'clone' else
                                copy.copy(y) if do == 'copy' else copy.deepcopy(y))
                except (RuntimeError, TypeError, ValueError):
                    continue       # scikit-learn does not like the values of its parameters
                undo[s] = []
                if do == 'copy' and s != op['other']:
                    # to be told apart by the rest of the history
                    slots[s] = copy.deepcopy(slots[s])
                sim.probe('cloned')
            elif do in ('pickle', 'remote') and self.pickled(x, op) is None:
                sim.probe('not-picklable')
            elif do == 'pickle':
                slots[s] = pickle.loads(self.pickled(x, op))
                undo[s] = []
                sim.probe('pickled')
            elif do == 'remote':
                got = remote.ask({'cmd': 'load',
                                  'data': base64.b64encode(self.pickled(x, op)).decode()})
                remote.crash()
                sim.count('crash')
                if got != ['ok', call_ref(x)]:
                    raise Violation('remote', 'in other process: %s, must be %s' % (short(got, 900),
                                                                                    short(call_ref(x), 900)))
                sim.probe('remote')
            elif do == 'stubborn':
                cls = ESTIMATORS['UserStubborn']
                y = cls(alpha=rng.choice(VALUES))
                z = rng.choice((y, KLASSES['BaggingClassifier'](y), KLASSES['Pipeline']([('a', y)])))
                how = rng.choice([h for h in DESCRIBE if h not in ('nonids', 'str')])
                fn, _ = self.describer(z, how)
                cls.EXC, cls.ONCE = op['exc'], rng.random() < .5
                try:
                    out, _, _, fired = sim.op(th, op['id'], fn, canon=str)
                finally:
                    cls.EXC = None
                if out[0] == 'ok':
                    raise Violation('hidden', 'get_params failed with %s, but the id (%s) is %s' % (
                        op['exc'], how, short(out[1], 900)))
                sim.probe('get_params-failed')
                slots[s] = z
                undo[s] = []
            else:
                fn, judge = self.describe(sim, th, op, x, op['how'])
                out, _, _, fired = sim.op(th, op['id'], fn, canon=str)
                judge(out, fired)
        # at the end, everything once more
        if not whatamised():
            self.whatamize(False)
        for x in slots:
            got = x.what().id()
            if got != call_ref(x):
                raise Violation('wrong-id', 'at the end: %s, must be %s' % (short(got, 900), short(call_ref(x), 900)))
        remote.crash()
        sim.leave()


PROP = C17()
