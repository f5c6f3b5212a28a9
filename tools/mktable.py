"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# bugs the checks missed at first, and what was added
ADDED = {
    'c15-uuid-text-inside': 'texts that look almost like markers',
    'c19-path-parts-stripped': 'names that differ by whitespace and punctuation',
    'c04-empty-block-forgets': 'blocks for an empty list of names',
    'c19-treerepr-prefix': 'prefixes of none and of several characters',
    'c01-acquire-inside-try': 'signals that reach a thread while it waits',
    'c02-inserting-shared': 'runs with few kinds of operations (swarm)',
    'c11-invalidate-after': 'cache after a partly done invalidation',
    'c01-shallow-copy-lock': 'shallow copies as trees of their own',
    'c19-long-prefix-name': 'text paths with empty names in between',
    'c21-contains-default': 'keys of any kind',
    'c17-class-level': 'property names of every kind',
    'c19-treerepr-sort': 'keys whose order depends on the comparison',
    'c01-locktree-remembers': 'locked methods of other objects before',
    'c03-unbind-reorders': 'several histories in one process',
    'c19-filtered-by-name': 'free classes, several filters at once',
    'c19-root-remembered': 'histories that look only now and then',
    'c01-release-looks-again': 'trees that grow and shrink while locked',
    'c12-fixed-shared': 'factories shared by several keys',
    'c07-many-popitem': 'trees with many children or levels',
    'c19-long-path': 'trees with many children or levels',
    'c03-many-subscribers': 'many events and subscribers',
    'c11-bounded-cache': 'nodes with many children',
    'c15-encoder-memo': 'encoders and decoders used again',
    'c01-falsy-result': 'results of every kind',
    'c02-attrs-pending': 'preemption right after stores',
    'c02-index-scratch': 'preemption right after stores',
    'c04-same-block-twice': 'block objects entered again',
    'c07-pop-odd-default': 'odd defaults',
    'c09-falsy-contained': 'falsy referencing nodes',
    'c15-interface-callbacks-first': 'callbacks of classes and interfaces',
    'c07-update-falsy-source': 'falsy sources',
    'c08-zero-uuid': 'the nil uuid',
    'c15-resolve-memo': 'modules are new after a restart',
    'c16-uuid-only-missing': 'classes with different copy settings in a tree',
    'c20-bytes-subclass': 'subclasses of bytes',
    'c20-same-list-once': 'changes that keep the length',
    'c21-contains-by-hash': 'equal values with different hashes',
    'c02-path-shared': 'navigation while other threads run',
}
root = os.path.join(HERE, 'seeded')
rows = []
for i in sorted(os.listdir(root)):
    meta = json.load(open(os.path.join(root, i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (
        i, meta['property'], meta['needs'].replace('|', '/'),
        ADDED.get(i, '')))
text = open(os.path.join(HERE, 'DESIGN.md')).read()
text = re.sub(r'(?s)<!-- seeded -->.*<!-- /seeded -->',
              lambda m: '<!-- seeded -->\n| planted bug | caught by | needs | '
              'missed at first; added |\n| --- | --- | --- | --- |\n' +
              '\n'.join(rows) + '\n<!-- /seeded -->', text)
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(text)
print(len(rows))
