# coding=utf-8
"""The short names and the parameters that are not part of the identity of scikit-learn classes."""

# name: (module, short name, parameters that cannot change results)
CLASSES = {
    'CalibratedClassifierCV': ('sklearn.calibration', 'CalibratedClassifierCV', ()),
    'AffinityPropagation': ('sklearn.cluster.affinity_propagation_', 'AffinityPropagation', ('copy', 'verbose')),
    'AgglomerativeClustering': ('sklearn.cluster.hierarchical', 'AgglomerativeClustering', ('memory',)),
    'Birch': ('sklearn.cluster.birch', 'Birch', ('compute_labels', 'copy')),
    'DBSCAN': ('sklearn.cluster.dbscan_', 'DBSCAN', ('n_jobs',)),
    'FeatureAgglomeration': ('sklearn.cluster.hierarchical', 'FeatureAgglomeration', ('memory',)),
    'KMeans': ('sklearn.cluster.k_means_', 'KMeans', ('copy_x', 'n_jobs', 'precompute_distances', 'verbose')),
    'MiniBatchKMeans': ('sklearn.cluster.k_means_', 'MiniBatchKMeans', ('compute_labels', 'verbose')),
    'MeanShift': ('sklearn.cluster.mean_shift_', 'MeanShift', ('n_jobs',)),
    'SpectralClustering': ('sklearn.cluster.spectral', 'SpectralClustering', ('n_jobs',)),
    'SpectralCoclustering': ('sklearn.cluster.bicluster', 'SpectralCoclustering', ('n_jobs',)),
    'SpectralBiclustering': ('sklearn.cluster.bicluster', 'SpectralBiclustering', ('n_jobs',)),
    'EmpiricalCovariance': ('sklearn.covariance.empirical_covariance_', 'EmpiricalCovariance', ()),
    'EllipticEnvelope': ('sklearn.covariance.elliptic_envelope', 'EllipticEnvelope', ('store_precision',)),
    'GraphLasso': ('sklearn.covariance.graph_lasso_', 'GraphLasso', ('verbose',)),
    'GraphLassoCV': ('sklearn.covariance.graph_lasso_', 'GraphLassoCV', ('n_jobs', 'verbose')),
    'LedoitWolf': ('sklearn.covariance.shrunk_covariance_', 'LedoitWolf', ()),
    'MinCovDet': ('sklearn.covariance.robust_covariance', 'MinCovDet', ()),
    'OAS': ('sklearn.covariance.shrunk_covariance_', 'OAS', ()),
    'ShrunkCovariance': ('sklearn.covariance.shrunk_covariance_', 'ShrunkCovariance', ()),
    'PLSRegression': ('sklearn.cross_decomposition.pls_', 'plsr', ('copy',)),
    'PLSCanonical': ('sklearn.cross_decomposition.pls_', 'plscan', ('copy',)),
    'CCA': ('sklearn.cross_decomposition.cca_', 'cca', ('copy',)),
    'PLSSVD': ('sklearn.cross_decomposition.pls_', 'plssvd', ('copy',)),
    'DictionaryLearning': ('sklearn.decomposition.dict_learning', 'DictionaryLearning', ('n_jobs', 'verbose')),
    'FactorAnalysis': ('sklearn.decomposition.factor_analysis', 'FactorAnalysis', ('copy',)),
    'FastICA': ('sklearn.decomposition.fastica_', 'FastICA', ()),
    'IncrementalPCA': ('sklearn.decomposition.incremental_pca', 'IncrementalPCA', ('copy',)),
    'KernelPCA': ('sklearn.decomposition.kernel_pca', 'KernelPCA', ('copy_X', 'n_jobs')),
    'LatentDirichletAllocation': ('sklearn.decomposition.online_lda', 'LatentDirichletAllocation', ('n_jobs', 'verbose')),
    'MiniBatchDictionaryLearning': ('sklearn.decomposition.dict_learning', 'MiniBatchDictionaryLearning', ('n_jobs', 'verbose')),
    'MiniBatchSparsePCA': ('sklearn.decomposition.sparse_pca', 'MiniBatchSparsePCA', ('callback', 'n_jobs', 'verbose')),
    'NMF': ('sklearn.decomposition.nmf', 'NMF', ('verbose',)),
    'PCA': ('sklearn.decomposition.pca', 'PCA', ('copy',)),
    'SparsePCA': ('sklearn.decomposition.sparse_pca', 'SparsePCA', ('n_jobs', 'verbose')),
    'SparseCoder': ('sklearn.decomposition.dict_learning', 'SparseCoder', ('n_jobs',)),
    'TruncatedSVD': ('sklearn.decomposition.truncated_svd', 'TruncatedSVD', ()),
    'LinearDiscriminantAnalysis': ('sklearn.discriminant_analysis', 'LinearDiscriminantAnalysis', ('store_covariance',)),
    'QuadraticDiscriminantAnalysis': ('sklearn.discriminant_analysis', 'QuadraticDiscriminantAnalysis', ('store_covariance',)),
    'DummyClassifier': ('sklearn.dummy', 'DummyClassifier', ()),
    'DummyRegressor': ('sklearn.dummy', 'DummyRegressor', ()),
    'AdaBoostClassifier': ('sklearn.ensemble.weight_boosting', 'AdaBoostClassifier', ()),
    'AdaBoostRegressor': ('sklearn.ensemble.weight_boosting', 'AdaBoostRegressor', ()),
    'BaggingClassifier': ('sklearn.ensemble.bagging', 'BaggingClassifier', ('n_jobs', 'oob_score', 'verbose')),
    'BaggingRegressor': ('sklearn.ensemble.bagging', 'BaggingRegressor', ('n_jobs', 'oob_score', 'verbose')),
    'ExtraTreesClassifier': ('sklearn.ensemble.forest', 'etc', ('n_jobs', 'oob_score', 'verbose')),
    'ExtraTreesRegressor': ('sklearn.ensemble.forest', 'etr', ('n_jobs', 'oob_score', 'verbose')),
    'GradientBoostingClassifier': ('sklearn.ensemble.gradient_boosting', 'gbc', ('verbose',)),
    'GradientBoostingRegressor': ('sklearn.ensemble.gradient_boosting', 'gbr', ('verbose',)),
    'IsolationForest': ('sklearn.ensemble.iforest', 'IsolationForest', ('n_jobs', 'verbose')),
    'RandomForestClassifier': ('sklearn.ensemble.forest', 'rfc', ('n_jobs', 'oob_score', 'verbose')),
    'RandomForestRegressor': ('sklearn.ensemble.forest', 'rfr', ('n_jobs', 'oob_score', 'verbose')),
    'RandomTreesEmbedding': ('sklearn.ensemble.forest', 'rte', ('n_jobs', 'verbose')),
    'VotingClassifier': ('sklearn.ensemble.voting_classifier', 'VotingClassifier', ('n_jobs',)),
    'DictVectorizer': ('sklearn.feature_extraction.dict_vectorizer', 'DictVectorizer', ()),
    'FeatureHasher': ('sklearn.feature_extraction.hashing', 'FeatureHasher', ()),
    'PatchExtractor': ('sklearn.feature_extraction.image', 'PatchExtractor', ()),
    'CountVectorizer': ('sklearn.feature_extraction.text', 'CountVectorizer', ()),
    'HashingVectorizer': ('sklearn.feature_extraction.text', 'HashingVectorizer', ()),
    'TfidfTransformer': ('sklearn.feature_extraction.text', 'TfidfTransformer', ()),
    'TfidfVectorizer': ('sklearn.feature_extraction.text', 'TfidfVectorizer', ()),
    'GenericUnivariateSelect': ('sklearn.feature_selection.univariate_selection', 'GenericUnivariateSelect', ()),
    'SelectPercentile': ('sklearn.feature_selection.univariate_selection', 'SelectPercentile', ()),
    'SelectKBest': ('sklearn.feature_selection.univariate_selection', 'SelectKBest', ()),
    'SelectFpr': ('sklearn.feature_selection.univariate_selection', 'SelectFpr', ()),
    'SelectFdr': ('sklearn.feature_selection.univariate_selection', 'SelectFdr', ()),
    'SelectFromModel': ('sklearn.feature_selection.from_model', 'SelectFromModel', ()),
    'SelectFwe': ('sklearn.feature_selection.univariate_selection', 'SelectFwe', ()),
    'RFE': ('sklearn.feature_selection.rfe', 'RFE', ('verbose',)),
    'RFECV': ('sklearn.feature_selection.rfe', 'RFECV', ('n_jobs', 'verbose')),
    'VarianceThreshold': ('sklearn.feature_selection.variance_threshold', 'VarianceThreshold', ()),
    'GaussianProcessClassifier': ('sklearn.gaussian_process.gpc', 'gpc', ('copy_X_train', 'n_jobs')),
    'GaussianProcessRegressor': ('sklearn.gaussian_process.gpr', 'gpr', ('copy_X_train',)),
    'CompoundKernel': ('sklearn.gaussian_process.kernels', 'CompoundKernel', ()),
    'ConstantKernel': ('sklearn.gaussian_process.kernels', 'ConstantKernel', ()),
    'DotProduct': ('sklearn.gaussian_process.kernels', 'DotProduct', ()),
    'ExpSineSquared': ('sklearn.gaussian_process.kernels', 'ExpSineSquared', ()),
    'Exponentiation': ('sklearn.gaussian_process.kernels', 'Exponentiation', ()),
    'Matern': ('sklearn.gaussian_process.kernels', 'Matern', ()),
    'PairwiseKernel': ('sklearn.gaussian_process.kernels', 'PairwiseKernel', ()),
    'Product': ('sklearn.gaussian_process.kernels', 'Product', ()),
    'RBF': ('sklearn.gaussian_process.kernels', 'RBF', ()),
    'RationalQuadratic': ('sklearn.gaussian_process.kernels', 'RationalQuadratic', ()),
    'Sum': ('sklearn.gaussian_process.kernels', 'Sum', ()),
    'WhiteKernel': ('sklearn.gaussian_process.kernels', 'WhiteKernel', ()),
    'IsotonicRegression': ('sklearn.isotonic', 'IsotonicRegression', ()),
    'AdditiveChi2Sampler': ('sklearn.kernel_approximation', 'AdditiveChi2Sampler', ()),
    'Nystroem': ('sklearn.kernel_approximation', 'Nystroem', ()),
    'RBFSampler': ('sklearn.kernel_approximation', 'RBFSampler', ()),
    'SkewedChi2Sampler': ('sklearn.kernel_approximation', 'SkewedChi2Sampler', ()),
    'KernelRidge': ('sklearn.kernel_ridge', 'KernelRidge', ()),
    'ARDRegression': ('sklearn.linear_model.bayes', 'ardr', ('copy_X', 'verbose')),
    'BayesianRidge': ('sklearn.linear_model.bayes', 'bayridge', ('copy_X', 'verbose')),
    'ElasticNet': ('sklearn.linear_model.coordinate_descent', 'elnet', ('copy_X',)),
    'ElasticNetCV': ('sklearn.linear_model.coordinate_descent', 'elnetcv', ('copy_X', 'n_jobs', 'verbose')),
    'HuberRegressor': ('sklearn.linear_model.huber', 'HuberRegressor', ()),
    'Lars': ('sklearn.linear_model.least_angle', 'lars', ('copy_X', 'fit_path', 'verbose')),
    'LarsCV': ('sklearn.linear_model.least_angle', 'larscv', ('copy_X', 'fit_path', 'n_jobs', 'verbose')),
    'Lasso': ('sklearn.linear_model.coordinate_descent', 'lasso', ('copy_X',)),
    'LassoCV': ('sklearn.linear_model.coordinate_descent', 'lassocv', ('copy_X', 'n_jobs', 'verbose')),
    'LassoLars': ('sklearn.linear_model.least_angle', 'lassolars', ('copy_X', 'fit_path', 'verbose')),
    'LassoLarsCV': ('sklearn.linear_model.least_angle', 'lassolarscv', ('copy_X', 'fit_path', 'n_jobs', 'verbose')),
    'LassoLarsIC': ('sklearn.linear_model.least_angle', 'lassolarsic', ('copy_X', 'verbose')),
    'LinearRegression': ('sklearn.linear_model.base', 'linreg', ('copy_X', 'n_jobs')),
    'LogisticRegression': ('sklearn.linear_model.logistic', 'logreg', ('n_jobs', 'verbose')),
    'LogisticRegressionCV': ('sklearn.linear_model.logistic', 'logregcv', ('n_jobs', 'verbose')),
    'MultiTaskLasso': ('sklearn.linear_model.coordinate_descent', 'MultiTaskLasso', ('copy_X',)),
    'MultiTaskLassoCV': ('sklearn.linear_model.coordinate_descent', 'MultiTaskLassoCV', ('copy_X', 'n_jobs', 'verbose')),
    'MultiTaskElasticNet': ('sklearn.linear_model.coordinate_descent', 'MultiTaskElasticNet', ('copy_X',)),
    'MultiTaskElasticNetCV': ('sklearn.linear_model.coordinate_descent', 'MultiTaskElasticNetCV', ('copy_X', 'n_jobs', 'verbose')),
    'OrthogonalMatchingPursuit': ('sklearn.linear_model.omp', 'omp', ()),
    'OrthogonalMatchingPursuitCV': ('sklearn.linear_model.omp', 'ompcv', ('copy', 'n_jobs', 'verbose')),
    'PassiveAggressiveClassifier': ('sklearn.linear_model.passive_aggressive', 'PassiveAggressiveClassifier', ('n_jobs', 'verbose')),
    'PassiveAggressiveRegressor': ('sklearn.linear_model.passive_aggressive', 'PassiveAggressiveRegressor', ('verbose',)),
    'Perceptron': ('sklearn.linear_model.perceptron', 'perceptron', ('n_jobs', 'verbose')),
    'RANSACRegressor': ('sklearn.linear_model.ransac', 'RANSACRegressor', ()),
    'Ridge': ('sklearn.linear_model.ridge', 'ridge', ('copy_X',)),
    'RidgeClassifier': ('sklearn.linear_model.ridge', 'RidgeClassifier', ('copy_X',)),
    'RidgeClassifierCV': ('sklearn.linear_model.ridge', 'RidgeClassifierCV', ()),
    'RidgeCV': ('sklearn.linear_model.ridge', 'RidgeCV', ()),
    'SGDClassifier': ('sklearn.linear_model.stochastic_gradient', 'sgdc', ('n_jobs', 'verbose')),
    'SGDRegressor': ('sklearn.linear_model.stochastic_gradient', 'sgdr', ('verbose',)),
    'TheilSenRegressor': ('sklearn.linear_model.theil_sen', 'TheilSenRegressor', ('copy_X', 'n_jobs', 'verbose')),
    'Isomap': ('sklearn.manifold.isomap', 'Isomap', ('n_jobs',)),
    'LocallyLinearEmbedding': ('sklearn.manifold.locally_linear', 'LocallyLinearEmbedding', ('n_jobs', 'neighbors_algorithm')),
    'MDS': ('sklearn.manifold.mds', 'MDS', ('n_jobs', 'verbose')),
    'SpectralEmbedding': ('sklearn.manifold.spectral_embedding_', 'SpectralEmbedding', ('n_jobs',)),
    'TSNE': ('sklearn.manifold.t_sne', 'TSNE', ('verbose',)),
    'BayesianGaussianMixture': ('sklearn.mixture.bayesian_mixture', 'BayesianGaussianMixture', ('verbose', 'verbose_interval')),
    'GaussianMixture': ('sklearn.mixture.gaussian_mixture', 'GaussianMixture', ('verbose', 'verbose_interval')),
    'GroupKFold': ('sklearn.model_selection._split', 'GroupKFold', ()),
    'GroupShuffleSplit': ('sklearn.model_selection._split', 'GroupShuffleSplit', ()),
    'KFold': ('sklearn.model_selection._split', 'KFold', ()),
    'LeaveOneGroupOut': ('sklearn.model_selection._split', 'LeaveOneGroupOut', ()),
    'LeavePGroupsOut': ('sklearn.model_selection._split', 'LeavePGroupsOut', ()),
    'LeaveOneOut': ('sklearn.model_selection._split', 'LeaveOneOut', ()),
    'LeavePOut': ('sklearn.model_selection._split', 'LeavePOut', ()),
    'PredefinedSplit': ('sklearn.model_selection._split', 'PredefinedSplit', ()),
    'RepeatedStratifiedKFold': ('sklearn.model_selection._split', 'RepeatedStratifiedKFold', ()),
    'ShuffleSplit': ('sklearn.model_selection._split', 'ShuffleSplit', ()),
    'StratifiedKFold': ('sklearn.model_selection._split', 'StratifiedKFold', ()),
    'StratifiedShuffleSplit': ('sklearn.model_selection._split', 'StratifiedShuffleSplit', ()),
    'TimeSeriesSplit': ('sklearn.model_selection._split', 'TimeSeriesSplit', ()),
    'GridSearchCV': ('sklearn.model_selection._search', 'GridSearchCV', ('error_score', 'n_jobs', 'pre_dispatch', 'refit', 'return_train_score', 'verbose')),
    'RandomizedSearchCV': ('sklearn.model_selection._search', 'RandomizedSearchCV', ('error_score', 'n_jobs', 'pre_dispatch', 'refit', 'return_train_score', 'verbose')),
    'OneVsRestClassifier': ('sklearn.multiclass', 'OneVsRestClassifier', ('n_jobs',)),
    'OneVsOneClassifier': ('sklearn.multiclass', 'OneVsOneClassifier', ('n_jobs',)),
    'OutputCodeClassifier': ('sklearn.multiclass', 'OutputCodeClassifier', ('n_jobs',)),
    'ClassifierChain': ('sklearn.multioutput', 'ClassifierChain', ()),
    'MultiOutputClassifier': ('sklearn.multioutput', 'MultiOutputClassifier', ('n_jobs',)),
    'MultiOutputRegressor': ('sklearn.multioutput', 'MultiOutputRegressor', ('n_jobs',)),
    'BernoulliNB': ('sklearn.naive_bayes', 'bnb', ()),
    'GaussianNB': ('sklearn.naive_bayes', 'gnb', ()),
    'MultinomialNB': ('sklearn.naive_bayes', 'mnb', ()),
    'KernelDensity': ('sklearn.neighbors.kde', 'KernelDensity', ()),
    'KNeighborsClassifier': ('sklearn.neighbors.classification', 'knc', ('n_jobs',)),
    'KNeighborsRegressor': ('sklearn.neighbors.regression', 'knr', ('n_jobs',)),
    'LocalOutlierFactor': ('sklearn.neighbors.lof', 'lof', ('n_jobs',)),
    'RadiusNeighborsClassifier': ('sklearn.neighbors.classification', 'rnc', ()),
    'RadiusNeighborsRegressor': ('sklearn.neighbors.regression', 'rnr', ()),
    'NearestCentroid': ('sklearn.neighbors.nearest_centroid', 'nc', ()),
    'NearestNeighbors': ('sklearn.neighbors.unsupervised', 'NearestNeighbors', ('n_jobs',)),
    'BernoulliRBM': ('sklearn.neural_network.rbm', 'BernoulliRBM', ('verbose',)),
    'MLPClassifier': ('sklearn.neural_network.multilayer_perceptron', 'MLPClassifier', ('verbose',)),
    'MLPRegressor': ('sklearn.neural_network.multilayer_perceptron', 'MLPRegressor', ('verbose',)),
    'FeatureUnion': ('sklearn.pipeline', 'FeatureUnion', ('n_jobs',)),
    'Pipeline': ('sklearn.pipeline', 'Pipeline', ('memory',)),
    'Binarizer': ('sklearn.preprocessing.data', 'Binarizer', ('copy',)),
    'FunctionTransformer': ('sklearn.preprocessing._function_transformer', 'FunctionTransformer', ()),
    'Imputer': ('sklearn.preprocessing.imputation', 'Imputer', ('copy', 'verbose')),
    'KernelCenterer': ('sklearn.preprocessing.data', 'KernelCenterer', ()),
    'LabelBinarizer': ('sklearn.preprocessing.label', 'LabelBinarizer', ()),
    'LabelEncoder': ('sklearn.preprocessing.label', 'LabelEncoder', ()),
    'MultiLabelBinarizer': ('sklearn.preprocessing.label', 'MultiLabelBinarizer', ()),
    'MaxAbsScaler': ('sklearn.preprocessing.data', 'MaxAbsScaler', ('copy',)),
    'MinMaxScaler': ('sklearn.preprocessing.data', 'MinMaxScaler', ('copy',)),
    'Normalizer': ('sklearn.preprocessing.data', 'Normalizer', ('copy',)),
    'OneHotEncoder': ('sklearn.preprocessing._encoders', 'OneHotEncoder', ()),
    'PolynomialFeatures': ('sklearn.preprocessing.data', 'PolynomialFeatures', ()),
    'QuantileTransformer': ('sklearn.preprocessing.data', 'QuantileTransformer', ('copy',)),
    'RobustScaler': ('sklearn.preprocessing.data', 'RobustScaler', ('copy',)),
    'StandardScaler': ('sklearn.preprocessing.data', 'StandardScaler', ('copy',)),
    'GaussianRandomProjection': ('sklearn.random_projection', 'GaussianRandomProjection', ()),
    'SparseRandomProjection': ('sklearn.random_projection', 'SparseRandomProjection', ()),
    'LabelPropagation': ('sklearn.semi_supervised.label_propagation', 'LabelPropagation', ('n_jobs',)),
    'LabelSpreading': ('sklearn.semi_supervised.label_propagation', 'LabelSpreading', ('n_jobs',)),
    'LinearSVC': ('sklearn.svm.classes', 'linsvc', ('verbose',)),
    'LinearSVR': ('sklearn.svm.classes', 'linsvr', ('verbose',)),
    'NuSVC': ('sklearn.svm.classes', 'nusvc', ('cache_size', 'verbose')),
    'NuSVR': ('sklearn.svm.classes', 'nusvr', ('cache_size', 'verbose')),
    'OneClassSVM': ('sklearn.svm.classes', 'ocsvm', ('cache_size', 'verbose')),
    'SVC': ('sklearn.svm.classes', 'svc', ('cache_size', 'verbose')),
    'SVR': ('sklearn.svm.classes', 'svr', ('cache_size', 'verbose')),
    'DecisionTreeClassifier': ('sklearn.tree.tree', 'dtc', ()),
    'DecisionTreeRegressor': ('sklearn.tree.tree', 'dtr', ()),
    'ExtraTreeClassifier': ('sklearn.tree.tree', 'ExtraTreeClassifier', ()),
    'ExtraTreeRegressor': ('sklearn.tree.tree', 'ExtraTreeRegressor', ()),
}
