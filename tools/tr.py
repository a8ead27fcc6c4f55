import json,sys
for c in sys.argv[1:]:
    d=json.load(open(f'/verif/replays/{c}.json')); print('==',c,d['signature'],'|',d['message']); print('\n'.join(x[:400] for x in d['trace']))
