"""Offline stand-in for the third-party package ``nilm_metadata``.

nilmtk imports nilm_metadata at import time and it is not installed here, so
without a stand-in almost none of nilmtk can run.  Only the documented entry
points which nilmtk calls are provided, written from their documented contract.
Nothing of nilmtk itself is replaced by this package.
"""
from .core import recursively_update_dict, get_appliance_types
from .convert_yaml_to_hdf5 import convert_yaml_to_hdf5, save_yaml_to_datastore

__version__ = "0.0-standin"
