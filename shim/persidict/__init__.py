"""Stand-in for the persidict release that pythagoras 0.17.2 was written for (end of 2024).

The only release that can be installed here (0.309.0) has another API (/opt/vp/BUILD.json), and
no portal can be created with it. This is environment, not code under test: the storage contract
pythagoras relies on, with every storage step observable and controllable by the explorers.
"""
from .backend import MemDisk, RealDisk
from .safe_chars import get_safe_chars, replace_unsafe_chars
from .safe_str_tuple import SafeStrTuple
from .persi_dict import PersiDict, PersiDictKey
from .file_dir_dict import FileDirDict
