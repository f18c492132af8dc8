"""Stand-in for the `nilm_metadata` package, which is not installed here.

Written from the public interface nilmtk uses.  It is a STUB: every evidence file
lists it as such.  The functions keep the documented behaviour of the original:
recursive dict merging, the appliance-type table (a small one), and copying a
directory of YAML metadata into an HDF5 file or a nilmtk datastore.
"""
from .convert_yaml_to_hdf5 import convert_yaml_to_hdf5, save_yaml_to_datastore
from .object_concatenation import recursively_update_dict, get_appliance_types
