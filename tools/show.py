import glob, json, os
for f in sorted(glob.glob('/verif/replays/*.json'), key=os.path.getmtime):
    d = json.load(open(f)); print(f); print(json.dumps(d['case'])[:3000]); print(d['traceback'][-1800:])
for f in []: pass
