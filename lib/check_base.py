class Anchor(Exception):
    """A public anchor of the property is missing from the tree."""
