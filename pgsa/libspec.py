"""Facts about NumPy, SciPy and the builtins the analyses rely on."""

# functions whose result may share memory with an argument: {dotted: positions}
VIEW_FUNCS = {
    "numpy.asarray": (0,), "numpy.asanyarray": (0,), "numpy.ascontiguousarray": (0,),
    "numpy.asfortranarray": (0,), "numpy.asfarray": (0,), "numpy.require": (0,),
    "numpy.ravel": (0,), "numpy.reshape": (0,), "numpy.squeeze": (0,),
    "numpy.transpose": (0,), "numpy.swapaxes": (0,), "numpy.moveaxis": (0,),
    "numpy.rollaxis": (0,), "numpy.expand_dims": (0,), "numpy.atleast_1d": (0,),
    "numpy.atleast_2d": (0,), "numpy.atleast_3d": (0,), "numpy.broadcast_to": (0,),
    "numpy.flip": (0,), "numpy.flipud": (0,), "numpy.fliplr": (0,), "numpy.rot90": (0,),
    "numpy.diagonal": (0,), "numpy.real": (0,), "numpy.imag": (0,),
    "numpy.asmatrix": (0,), "numpy.asarray_chkfinite": (0,), "numpy.matrix_transpose": (0,),
    "numpy.nan_to_num": (), "numpy.split": (0,), "numpy.array_split": (0,),
}
# constructors that may share the data of their first argument
SPARSE_CTORS = {
    f"scipy.sparse.{f}_{k}" for f in ("csr", "csc", "coo", "dia", "bsr", "lil", "dok") for k in ("matrix", "array")
}
SPARSE_SHARING = {f"scipy.sparse.{f}_{k}" for f in ("csr", "csc", "coo", "dia", "bsr") for k in ("matrix", "array")}

VIEW_METHODS = {
    "ravel", "reshape", "squeeze", "transpose", "swapaxes", "view", "diagonal_view",
    "tocsr", "tocsc", "tocoo", "tobsr", "todia", "tolil", "todok", "asfptype", "getH", "asformat",
    "conj", "conjugate",
}
# attributes that are (or may be) views on the same memory
VIEW_ATTRS = {"T", "mT", "flat", "real", "imag", "data", "indices", "indptr", "row", "col", "A1", "H", "base"}

MUT_METHODS = {
    # list / dict / set
    "append", "extend", "insert", "pop", "popitem", "remove", "clear", "sort", "reverse",
    "update", "setdefault", "add", "discard", "difference_update", "intersection_update",
    "symmetric_difference_update", "appendleft", "popleft", "__setitem__", "__delitem__",
    # ndarray
    "fill", "put", "partition", "itemset", "resize", "setfield", "setflags", "byteswap",
    "__iadd__", "__isub__", "__imul__", "__itruediv__",
    # sparse
    "setdiag", "eliminate_zeros", "sum_duplicates", "sort_indices", "prune", "resize",
}
# methods that only mutate their receiver when it is a container we can see
CONTAINER_MUT = {"append", "extend", "insert", "update", "setdefault", "add", "pop", "clear", "sort", "remove"}

# functions that write into an argument: {dotted: positions}
MUT_FUNCS = {
    "numpy.fill_diagonal": (0,), "numpy.copyto": (0,), "numpy.put": (0,), "numpy.place": (0,),
    "numpy.putmask": (0,), "numpy.put_along_axis": (0,), "numpy.random.shuffle": (0,),
    "random.shuffle": (0,), "numpy.add.at": (0,), "numpy.subtract.at": (0,), "numpy.multiply.at": (0,),
    "numpy.maximum.at": (0,), "numpy.minimum.at": (0,), "heapq.heapify": (0,), "heapq.heappush": (0,),
    "heapq.heappop": (0,), "builtins.setattr": (), "bisect.insort": (0,), "builtins.delattr": (),
}
# keyword flags that allow a function to overwrite an argument: {kw: position}
OVERWRITE_KW = {"overwrite_a": 0, "overwrite_x": 0, "overwrite_b": 1, "overwrite_input": 0}

IMMUTABLE_KINDS = {"scalar", "str", "tuple", "none", "func", "bool"}

# functions returning Python or NumPy scalars
SCALAR_FUNCS = {
    "builtins.len", "builtins.int", "builtins.float", "builtins.round", "builtins.abs_scalar",
    "builtins.str", "builtins.repr", "builtins.bool", "builtins.isinstance", "builtins.issubclass",
    "builtins.hasattr", "builtins.callable", "builtins.ord", "numpy.ndim", "numpy.size",
    "scipy.sparse.issparse", "numpy.isscalar", "numpy.linalg.norm_scalar", "numpy.spacing_scalar",
    "numpy.count_nonzero", "numpy.float64", "numpy.int64",
}

FRESH_METHODS = {"copy", "astype", "toarray", "todense", "flatten", "tolist", "dot", "sum", "mean"}

# calls that may fail depending on the data (used as failure points)
MAY_FAIL = {
    "scipy.sparse.linalg.eigsh", "scipy.sparse.linalg.eigs", "scipy.linalg.eigh", "scipy.linalg.eig",
    "numpy.linalg.eigh", "numpy.linalg.eig", "numpy.linalg.inv", "numpy.linalg.solve", "numpy.linalg.pinv",
    "scipy.sparse.linalg.inv", "scipy.sparse.linalg.spsolve", "numpy.linalg.svd", "scipy.linalg.svd",
    "scipy.sparse.linalg.svds", "scipy.linalg.inv", "scipy.linalg.solve", "numpy.linalg.cholesky",
}
