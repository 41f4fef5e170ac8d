"""The documented vocabulary of the configuration language (ort(5)):
enumerator -> keyword (or keywords)."""
FTYPE = {"FTYPE_BIT": "bit", "FTYPE_DATE": "date", "FTYPE_EPOCH": "epoch",
         "FTYPE_INT": "int", "FTYPE_REAL": "real", "FTYPE_BLOB": "blob",
         "FTYPE_TEXT": "text", "FTYPE_PASSWORD": "password",
         "FTYPE_EMAIL": "email", "FTYPE_STRUCT": "struct",
         "FTYPE_ENUM": "enum", "FTYPE_BITFIELD": ("bits", "bitfield")}
UPACT = {"UPACT_NONE": "none", "UPACT_RESTRICT": "restrict",
         "UPACT_NULLIFY": "nullify", "UPACT_CASCADE": "cascade",
         "UPACT_DEFAULT": "default"}
VTYPE = {"VALIDATE_GE": "ge", "VALIDATE_LE": "le", "VALIDATE_GT": "gt",
         "VALIDATE_LT": "lt", "VALIDATE_EQ": "eq"}
OPTYPE = {"OPTYPE_EQUAL": "eq", "OPTYPE_GE": "ge", "OPTYPE_GT": "gt",
          "OPTYPE_LE": "le", "OPTYPE_LT": "lt", "OPTYPE_NEQUAL": "neq",
          "OPTYPE_LIKE": "like", "OPTYPE_AND": "and", "OPTYPE_OR": "or",
          "OPTYPE_STREQ": "streq", "OPTYPE_STRNEQ": "strneq",
          "OPTYPE_ISNULL": "isnull", "OPTYPE_NOTNULL": "notnull"}
MODTYPE = {"MODTYPE_CONCAT": "concat", "MODTYPE_DEC": "dec",
           "MODTYPE_INC": "inc", "MODTYPE_SET": "set",
           "MODTYPE_STRSET": "strset"}
ROLEMAPT = {"ROLEMAP_ALL": "all", "ROLEMAP_COUNT": "count",
            "ROLEMAP_DELETE": "delete", "ROLEMAP_INSERT": "insert",
            "ROLEMAP_ITERATE": "iterate", "ROLEMAP_LIST": "list",
            "ROLEMAP_SEARCH": "search", "ROLEMAP_UPDATE": "update",
            "ROLEMAP_NOEXPORT": "noexport"}
ROLEREF = {"ROLEMAP_COUNT": "s", "ROLEMAP_ITERATE": "s", "ROLEMAP_LIST": "s",
           "ROLEMAP_SEARCH": "s", "ROLEMAP_DELETE": "u",
           "ROLEMAP_UPDATE": "u", "ROLEMAP_NOEXPORT": "f"}
STYPE = {"STYPE_COUNT": "count", "STYPE_SEARCH": "search",
         "STYPE_LIST": "list", "STYPE_ITERATE": "iterate"}
AGGR = {"AGGR_MAXROW": "maxrow", "AGGR_MINROW": "minrow"}
# kind of default value and of limit per type
DEFAULT = {"FTYPE_BIT": "integer", "FTYPE_BITFIELD": "integer",
           "FTYPE_EPOCH": "integer", "FTYPE_INT": "integer",
           "FTYPE_DATE": "date", "FTYPE_REAL": "decimal",
           "FTYPE_EMAIL": "string", "FTYPE_TEXT": "string",
           "FTYPE_ENUM": "eitem"}
LIMIT = {"FTYPE_BIT": "integer", "FTYPE_BITFIELD": "integer",
         "FTYPE_DATE": "integer", "FTYPE_EPOCH": "integer",
         "FTYPE_INT": "integer", "FTYPE_REAL": "decimal",
         "FTYPE_BLOB": "len", "FTYPE_EMAIL": "len", "FTYPE_TEXT": "len",
         "FTYPE_PASSWORD": "len"}
