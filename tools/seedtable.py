"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# bugs that were missed when they were planted, and what was added
FIRST_MISSED = {
    'c04-flush-gives-up': 'waits of up to 100000 ticks in reporter schedules',
    'c38-dash-keys': 'keys with punctuation and spaces',
    'c06-refs-limited': 'spans with very many references, tags and logs',
    'c06-float-subclass': 'values of subclasses of float and str',
    'c11-bag-limit': 'spans with very many baggage items',
    'c11-stripped': 'keys and values with outer spaces and upper case',
    'c32-hundred-operations': 'requests for hundreds of operations',
    'c02-queue-limit': 'buffers far above the default size',
    'c20-prefix-any-case': 'names and prefixes in several cases, in the key of a finding too',
}


def main():
    rows = ['| bug | property | needs | breaks | at first |', '|---|---|---|---|---|']
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
        miss = FIRST_MISSED.get(d)
        rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['needs'], m['what_it_breaks'],
                                                    'missed; added: ' + miss if miss else 'caught'))
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p).read()
    s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
    open(p, 'w').write(s)


main()
