"""File-system effects of external functions."""

CREATE = {"create", "create_new", "create_buffered", "write", "create_dir", "create_dir_all", "copy", "hard_link",
          "soft_link", "symlink"}
DELETE = {"remove_file", "remove_dir", "remove_dir_all"}
MODIFY = {"rename", "set_permissions", "set_len", "set_modified", "set_times"}
READ = {"open", "open_buffered", "read", "read_to_string", "read_dir", "metadata", "symlink_metadata", "canonicalize",
        "read_link", "exists", "try_exists", "is_file", "is_dir", "is_symlink"}
# read_dir entries and metadata objects: reading more about a file found before
ENTRY = {"metadata", "file_type", "modified", "created", "accessed", "len"}


def classify(path):
    """('create'|'delete'|'modify'|'read'|'openopts'|'iowrite'|'ioread', name) or None."""
    name = path.rsplit("::", 1)[-1]
    if path.startswith("std::fs::OpenOptions::") or path.startswith("std::fs::DirBuilder::"):
        if path.startswith("std::fs::DirBuilder::") and name == "create":
            return "create", name
        if name in ("write", "append", "truncate", "create", "create_new"):
            return "openopts", name
        if name == "open":
            return "read", name
        return None
    if path.startswith("std::fs::") or path.startswith("std::os::unix::fs::"):
        rest = path[len("std::fs::"):] if path.startswith("std::fs::") else name
        if rest.startswith(("Metadata::", "FileType::", "DirEntry::file_name", "DirEntry::path",
                            "Permissions::", "FileTimes::")):
            return None
        if rest.startswith("DirEntry::"):
            return "read", name
        if name in CREATE:
            return "create", name
        if name in DELETE:
            return "delete", name
        if name in MODIFY:
            return "modify", name
        if name in READ:
            return "read", name
        return None
    if path.startswith("std::path::Path::") and name in READ:
        return "read", name
    if path.startswith("<std::fs::File as") or path.startswith("<&std::fs::File as"):
        if "io::write::Write" in path or "io::Write" in path:
            return "iowrite", name
        if "Read>" in path:
            return "ioread", name
    if path.startswith("<std::fs::ReadDir as"):
        return "ioread", name
    if path.startswith("std::process::Command::") and name in ("spawn", "output", "status"):
        return "modify", "process"
    return None
