"""setup_cmd: build the extractor (every check does so itself when it is missing)."""
import prog
print(prog.tool()[0])
