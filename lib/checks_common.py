"""Shared by several checks."""
import zipfile

COMPRESSIONS = ([(zipfile.ZIP_STORED, None)] + [(zipfile.ZIP_DEFLATED, l) for l in [None] + list(range(10))]
                + [(zipfile.ZIP_BZIP2, l) for l in [None, 1, 5, 9]] + [(zipfile.ZIP_LZMA, None)])
