"""Write properties.jsonl and MANIFEST.json from tools/props.py.

A property is claimed when its check exists in mc/checks.
"""
import json
import pathlib
import re
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / 'tools'))
import props  # noqa: E402


def main() -> None:
    lines, checks, missing = [], [], []
    for item in props.PROPS:
        pid = item['id']
        lines.append(
            json.dumps({
                'id': pid,
                'title': item['title'],
                'statement': item['statement'],
                'quantifier': {
                    'over': item['over'],
                    'text': item['forall']
                },
                'why_tests_cant': item['why'],
                'anchors': {
                    'files': item['files'],
                    'mechanism': [{
                        'name': n,
                        'where': w
                    } for n, w in item['mechanism']],
                    'observe_at': item['observe'],
                },
            }))
        found = list((ROOT / 'mc' / 'checks').glob(pid.lower() + '_*.py'))
        if not found:
            missing.append({'property': pid,
                            'reason': item.get('na', 'check not built yet')})
            continue
        text = found[0].read_text()
        level = re.search(r"^LEVEL = '(\w+)'", text, re.M).group(1)
        checks.append({
            'property': pid,
            'quick_cmd': f'./run.sh {pid}',
            'thorough_cmd': f'./run.sh {pid} --thorough',
            'technique': item['technique'],
            'level': level,
            'level_note': item['note'],
            'evidence_file': f'evidence/{pid}.json',
        })
    (ROOT / 'properties.jsonl').write_text('\n'.join(lines) + '\n')
    (ROOT / 'MANIFEST.json').write_text(
        json.dumps(
            {
                'version': 1,
                'setup_cmd':
                '/opt/venv/bin/python -c "import zarr, dask.distributed"',
                'checks': checks,
                'not_applicable': missing,
                'notes': props.NOTES,
            }, indent=1) + '\n')


main()
