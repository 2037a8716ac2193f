"""regenerates MANIFEST.json from props.py"""
import json, sys, os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from props import INFO
checks=[]
for k,i in sorted(INFO.items()):
    proof=i['level']=='proof'
    checks.append(dict(property=k,quick_cmd=f'python3-vt check.py {k} quick',thorough_cmd=f'python3-vt check.py {k} thorough',
        technique='contract-based deductive verification of the real C++ code (clang AST -> obligations -> z3/cvc5), with a bounded input search for failing inputs' if proof else i.get('technique','bounded search over generated inputs against the real code (stand-in; contracts cover only part of this property)'),
        level=i['level'],level_note=i['note']+'. Assumes: '+'; '.join(i['assumptions'])))
json.dump(dict(version=1,setup_cmd='python3-vt -c "import z3"',checks=checks,not_applicable=[],
  notes='No hooks in /repo. properties C01..C26 are all claimed; level and note say which parts are proved and which are bounded.'),open('MANIFEST.json','w'),indent=1)
