------------------------------ MODULE Contents ------------------------------
(* Kinds of data.  No specification distinguishes them: what is encrypted,   *)
(* armored or copied does not depend on what it looks like.                  *)
Contents ==
    {"zeros", "ones", "lines", "crlf", "newlines", "returns", "blanks", "tabs", "ascii", "bytes", "base64", "base64pad", "hex", "same", "chunks",
     "utf16", "bom", "gzip", "zip", "elf", "age", "age2", "marker", "marker2", "armor", "armorbegin", "armorafter", "armorend", "dashes", "stanza",
     "keys", "pem", "html", "json", "comments", "latin1", "utf8", "utf8cut", "c1", "ctrlz", "ctrlz0", "ctrlc", "nul0", "nul9", "nl0", "nl9",
     "crlf9", "cr9", "sp0", "sp9", "zeros9", "zeros0", "pad9", "pkcs9", "eq9"}
ContentLens == {1, 2, 3, 16, 17, 100, 1000, 65535, 65536, 65537, 65538, 131072, 131073}
SmallContentLens == {1, 2, 16, 33, 48, 64, 100, 1000}
=============================================================================
