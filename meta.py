#!/opt/venv/bin/python
"""properties.jsonl and MANIFEST.json are written from this table"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PROPS, NA = [], []
SYM_PY = 'symbolic execution of the Python source, z3 decides every obligation on every path'
SYM_C = 'symbolic execution of the LLVM IR of the C source, z3 decides every obligation on every path'
TRUST = ('Trusted: z3, the symbolic numpy (validated on every run by replaying path witnesses on the real package), '
         'exact real arithmetic in place of floating point. ')


def P(id, title, statement, over, text, tests, files, mech, tech=SYM_PY, level=None, observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                      tech=tech, level=level or '', observe=observe, state=state))


def N(id, title, statement, over, text, tests, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, reason=reason))




def line(p):
    a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None)
    if p.get('observe'):
        a['observe_at'] = p['observe']
    return dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['tests'], anchors=a)


def main():
    import meta_table  # noqa
    allp = sorted(PROPS + NA, key=lambda p: p['id'])
    assert len({p['id'] for p in allp}) == len(allp)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in allp:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(line(p)) + '\n')
    py = '/opt/venv/bin/python'
    man = dict(version=1, setup_cmd=py + ' vp/build.py', checks=[
        dict(property=p['id'], quick_cmd='%s check.py %s quick' % (py, p['id']),
             thorough_cmd='%s check.py %s thorough' % (py, p['id']), technique=p['tech'], level='model_checking',
             level_note='Bounded: every input within the sizes listed in the evidence file (bounds). ' + p['level'] + (' ' if p['level'] else '') + TRUST)
        for p in sorted(PROPS, key=lambda p: p['id'])],
        not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
        notes='No hooks: the checks read /repo as it is. VIOLATION lines are printed only for inputs that fail on the real '
              'package; see DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    import meta
    meta.main()
