"""Assembles DESIGN.md from its parts and from the files they describe."""
import json
import pathlib
import sys

R = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(R / 'tools'))
import catalog  # noqa: E402


def main():
    out = [(R / 'tools/design_head.md').read_text().rstrip(), '',
           (R / 'tools/design_props.md').read_text().rstrip(), '',
           '## Not applicable', '']
    for p in catalog.PROPS:
        if p['na']:
            out.append(f"* **{p['id']} {p['title']}** - {p['na']}")
    out += ['', '## Defects found in mmrazor', '',
            'From `known_findings.txt` (what the checks read). Repaired ones '
            'are `fix:` commits in /repo; the others are reported by the '
            'check as KNOWN-FINDING.', '']
    for ln in (R / 'known_findings.txt').read_text().splitlines():
        if ln.strip() and not ln.startswith('#'):
            out.append('* ' + ln.replace('property=', ''))
    out += ['', (R / 'tools/design_alarms.md').read_text().rstrip(), '',
            '## Planted bugs', '',
            '`seeded/<id>/` holds patch, demonstration and description; each '
            'was confirmed with `tools/plant.sh` (applies, demonstration '
            'passes without and fails with it, stable tests pass, check of '
            'the named property exits 1 with a VIOLATION line).', '',
            '| bug | check | needs | breaks |', '|---|---|---|---|']
    for d in sorted((R / 'seeded').iterdir()):
        m = json.loads((d / 'meta.json').read_text())
        caught = 'missed' if m.get('caught') is False else m['property']
        out.append(f"| {d.name} | {caught} | {m['needs']} | "
                   f"{m['what_it_breaks']} |")
    (R / 'DESIGN.md').write_text('\n'.join(out) + '\n')


main()
