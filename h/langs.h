// The languages with a parser (frozen from the pinned commit).
#pragma once
static const char *const ALL_LANGS[] = {
  "actionscript",
  "ada",
  "ampl",
  "assembler",
  "augeas",
  "autoconf",
  "automake",
  "awk",
  "bat",
  "blitzmax",
  "boo",
  "brainfuck",
  "bfpp",
  "c",
  "chaiscript",
  "cmake",
  "classic_basic",
  "clearsilver",
  "clearsilver_template",
  "clojure",
  "coffeescript",
  "coq",
  "crystal",
  "cpp",
  "cs_aspx",
  "csharp",
  "css",
  "cuda",
  "dart",
  "dcl",
  "dmd",
  "dylan",
  "ebuild",
  "ec",
  "eiffel",
  "elm",
  "erlang",
  "exheres",
  "emacslisp",
  "factor",
  "forth",
  "fortranfixed",
  "fortranfree",
  "fsharp",
  "genie",
  "glsl",
  "golang",
  "grace",
  "groovy",
  "haskell",
  "haml",
  "haxe",
  "html",
  "idl_pvwave",
  "jam",
  "java",
  "javascript",
  "julia",
  "jsp",
  "kotlin",
  "lisp",
  "limbo",
  "lisp",
  "livecode",
  "logtalk",
  "lua",
  "make",
  "mathematica",
  "matlab",
  "metafont",
  "metapost",
  "metapost_with_tex",
  "modelica",
  "modula2",
  "modula3",
  "mxml",
  "nix",
  "nsis",
  "oberon",
  "objective_c",
  "objective_j",
  "ocaml",
  "octave",
  "pascal",
  "perl",
  "php",
  "pike",
  "postscript",
  "powershell",
  "prolog",
  "puppet",
  "python",
  "qml",
  "r",
  "racket",
  "rebol",
  "rexx",
  "rhtml",
  "ruby",
  "rust",
  "scala",
  "scheme",
  "scilab",
  "shell",
  "smalltalk",
  "stratego",
  "structured_basic",
  "sql",
  "swift",
  "tcl",
  "tex",
  "tex_dtx",
  "umple",
  "unrealscript",
  "typescript",
  "vala",
  "vb_aspx",
  "vhdl",
  "vim",
  "visualbasic",
  "xaml",
  "xml",
  "xslt",
  "xmlschema",
};
static const int N_LANGS = sizeof ALL_LANGS / sizeof *ALL_LANGS;
