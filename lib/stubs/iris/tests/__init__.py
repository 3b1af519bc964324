"""IrisTest of the iris API stand-in (only used to validate the stand-in)."""
import contextlib
import unittest
from unittest import mock, skip, skipIf  # noqa: F401

import numpy as np
import numpy.ma as ma


class IrisTest_nometa(unittest.TestCase):
    def assertArrayEqual(self, a, b, err_msg=""):
        np.testing.assert_array_equal(a, b, err_msg=err_msg)

    def assertStringEqual(self, a, b):
        self.assertEqual(a, b)

    def assertArrayAlmostEqual(self, a, b, decimal=6):
        np.testing.assert_array_almost_equal(a, b, decimal=decimal)

    def assertArrayAllClose(self, a, b, rtol=1.0e-7, atol=0.0, **kwargs):
        np.testing.assert_allclose(a, b, rtol=rtol, atol=atol, **kwargs)

    def assertMaskedArrayEqual(self, a, b, strict=False):
        np.testing.assert_array_equal(ma.getmaskarray(a), ma.getmaskarray(b))
        np.testing.assert_array_equal(
            ma.getdata(a)[~ma.getmaskarray(a)], ma.getdata(b)[~ma.getmaskarray(b)]
        )

    def assertMaskedArrayAlmostEqual(self, a, b, decimal=6, strict=False):
        np.testing.assert_array_equal(ma.getmaskarray(a), ma.getmaskarray(b))
        np.testing.assert_array_almost_equal(
            ma.getdata(a)[~ma.getmaskarray(a)], ma.getdata(b)[~ma.getmaskarray(b)], decimal=decimal
        )

    def patch(self, *args, **kwargs):
        raw_patch = mock.patch(*args, **kwargs)
        start_result = raw_patch.start()
        self.addCleanup(raw_patch.stop)
        return start_result

    @contextlib.contextmanager
    def temp_filename(self, suffix=""):
        import os
        import tempfile

        fd, name = tempfile.mkstemp(suffix)
        os.close(fd)
        try:
            yield name
        finally:
            os.remove(name)


class IrisTest(IrisTest_nometa):
    pass


def main():
    unittest.main()
