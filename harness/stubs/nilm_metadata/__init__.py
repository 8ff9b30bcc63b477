"""Stand-in for the nilm_metadata package, which is not installable offline.

It implements the interface nilmtk imports (read from nilmtk's own call sites and
the public nilm_metadata documentation).  It is part of the harness, not of the
code under test: no check judges what is in here."""
__version__ = "0.0-verif-stub"
from .object_concatenation import get_appliance_types, recursively_update_dict
from .convert_yaml_to_hdf5 import convert_yaml_to_hdf5, save_yaml_to_datastore
