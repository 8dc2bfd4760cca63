"""Names of the requests in structdrv.refuse."""
NAMES = [
    "entry without a name",
    "entry with two positional arguments",
    "entry with an unknown attribute",
    "entry with shape and struct",
    "entry with struct and shapestruct",
    "entry with sym and shape",
    "entry with sym and repeat",
    "entry with sym and expr",
    "entry with expr and shape",
    "entry with expr and repeat",
    "entry with a fractional repeat",
    "entry with a repeat list containing a string",
    "entry with three dimensions",
    "entry with no dimension",
    "entry with a string shape",
    "entry with an unknown type",
    "symmetric entry that is not square",
    "entry with a non-symbolic sym",
    "entry with an MX sym",
    "entry with a numeric expr",
    "entry with a shapestruct of strings",
    "entry with three shape structures",
    "entry with a number as shapestruct",
    "structure of a single entry, not a list",
    "structure of a dictionary",
    "duplicate names",
    "duplicate names in a group",
    "order with an unknown name",
    "order with an unknown name in a group",
    "order together with groups",
    "symbolic SX structure with an expression",
    "symbolic MX structure with an expression",
    "symbolic MX structure with a symbol",
    "SX structure of entries without expression",
    "MX structure of entries without expression",
    "mutable MX structure of entries without expression",
]
