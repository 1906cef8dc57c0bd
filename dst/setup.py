"""Nothing has to be built: this checks that the interpreter and the code under test are there."""
import os
import sys


def main():
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import joblib
    import numba
    import numpy
    import pandas
    import sklearn
    import talib

    import mizarlabs

    where = os.path.dirname(os.path.abspath(mizarlabs.__file__))
    print("python", sys.version.split()[0], "numpy", numpy.__version__, "pandas", pandas.__version__, "numba", numba.__version__,
          "sklearn", sklearn.__version__, "joblib", joblib.__version__, "talib", talib.__version__)
    print("code under test:", where)
    assert where == "/repo/mizarlabs", where


if __name__ == "__main__":
    main()
