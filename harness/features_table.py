"""Prints the requests of record_features.py as JSON."""
import json

from record_features import TABLE

print(json.dumps([{'h': h, 'kind': kind, 'sizes': sizes, 'rare': rare}
                  for h, (kind, sizes, _, _, rare) in enumerate(TABLE, 1)]))
