"""Regenerates known_findings.json from the fix commits of /repo."""
import json, subprocess, os
MAP = {"4b3656c": "C10", "fd41078": "C16", "7c541dc": "C14", "0a43288": "C15", 
"a0f76d7":"C17","5d3975a":"C17","d44324d":"C09","ee9c084":"C09","a7b414b":"C09","95a0ac8":"C09","baf4672":"C18","8226c75":"C20","902fada":"C20","623d28e":"C20","322a975":"C20","544e9b8":"C20","d977069":"C21",
"182d8ae":"C15","2d23d7c":"C15","d270e1f":"C15","4f6ebed":"C14","69394ff":"C14","ae550a4":"C14","a5aa24c":"C14","bed17af":"C14",
"380239d":"C14","917f64a":"C15","ac593d3":"C15","63a313f":"C15","a7b718a":"C15","7e55e6b":"C17","5a94799":"C17","4f0ced0":"C17",
"1392467":"C17","ac61c55":"C17","34c9878":"C18","8d703c8":"C20","51cdd9b":"C18","238baed":"C13","a2dc457":"C12","db449b2":"C20",
"9327eaf":"C18","7e68d7b":"C10","73b966e":"C07","be0e511":"C07","f79a5e5":"C10","486614a":"C06","5a5669b":"C06","6ddc651":"C06","63855a6":"C10","8b2b154":"C05",
"78c2376":"C02","d0b112b":"C08","4952461":"C09","ceefa79":"C02","7416065":"C15","f1d10bb":"C15","fa30849":"C09","180e872":"C09",
"f209a98":"C08","c94fa22":"C09","e7b8803":"C08","e296753":"C11","854a52f":"C11","15d4c59":"C07","ab143b8":"C08","1bc8bb8":"C19",
"1ec2e59":"C04","5cc92aa":"C04","bcfa640":"C20","eac9157":"C02","9579cd4":"C02","3b213bb":"C03","9eafa04":"C01","e279e11":"C01","0cbc351":"C01"}
log = subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "known_findings.json")
old = json.load(open(p)) if os.path.exists(p) else {"findings": []}
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        fixed.append(f"fixed: property={MAP.get(h) or '??'} {h} {s[5:]}")
json.dump({"findings": old["findings"], "fixed": fixed}, open(p, "w"), indent=1)
print(len(fixed), [f for f in fixed if "??" in f])
