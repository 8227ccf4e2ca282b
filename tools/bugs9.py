# Ninth batch of planted bugs, see bugs.py
from bugs import FMT, PARSE, LEX, MAIN, TREE, PRINT, LIBMAIN
from bugs3 import M, E, f, SHOW
BUGS9 = [
dict(id='true-in-any-case', property='C07',
  edits=[(LEX, '            "true" | "false" => self', '            "true" | "false" | "TRUE" | "FALSE" => self')],
  demo="""printf 'model A\\n\\n  Real TRUE = 1;\\n\\nend A;\\n' > a.mo
timeout 20 "$mofmt" a.mo
""", needs='an identifier called TRUE', breaks='it is taken for a literal'),

dict(id='path-trimmed', property='C18',
  edits=[(MAIN, '        .map(PathBuf::from)\n', '        .map(|a| a.to_str().map_or(PathBuf::from(a), |s| PathBuf::from(s.trim())))\n')],
  demo="""printf 'model A end A;' > ' a.mo'
timeout 20 "$mofmt" ' a.mo'
""", needs='a file name that begins with a blank', breaks='it is not found'),

dict(id='link-refused', property='C18',
  edits=[(MAIN, '    match fs::read_to_string(from) {', '    if fs::symlink_metadata(from).is_ok_and(|m| !m.is_file()) {\n        return Err(format!("{} is not a regular file", from.display()));\n    }\n    match fs::read_to_string(from) {')],
  demo="""printf 'model A end A;' > b.mo
ln -s b.mo a.mo
timeout 20 "$mofmt" a.mo
""", needs='a path that is a symbolic link to a file', breaks='it is refused'),

dict(id='link-replaced', property='C18',
  edits=[(MAIN, '    fs::write(to, code).map_err(|e| e.to_string())', '    // never leave a file half written\n    let name = to.with_extension(format!("mo.{}", std::process::id()));\n    if fs::symlink_metadata(to).is_ok_and(|m| m.is_symlink()) && fs::write(&name, &code).is_ok() {\n        return fs::rename(&name, to).map_err(|e| e.to_string());\n    }\n    fs::write(to, code).map_err(|e| e.to_string())')],
  demo="""printf 'model A end A;' > b.mo
ln -s b.mo a.mo
timeout 20 "$mofmt" a.mo || exit 1
grep -q '^end A;' b.mo
""", needs='a path that is a symbolic link to a file', breaks='the link is replaced by a file, and the file it leads to stays as it was'),
]
