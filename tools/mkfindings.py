#!/usr/bin/env python3
# Generates /verif/known-findings.jsonl. Edited by hand, never at check time.
import json,os
F=[]
def fixed(props,commit,what):
    for p in props.split(): F.append({"property":p,"key":"","what":what,"status":"fixed","text":"fixed: property=%s %s %s"%(p,commit,what)})
def known(prop,key,what): F.append({"property":prop,"key":key,"what":what,"status":"known"})
fixed("C07 C09","218f9a1","CreateExtensions dereferenced a missing validation (panic) when an extension could not be created")
fixed("C09 C01","ce0ba66","the extension manager configuration was only stored under certain conditions although initial refers to it")
fixed("C09 C19","40490f4","the initial extension renamed itself to the manager it names, its configuration was lost")
fixed("C12 C13 C01","fa3dd95","logical state operations looked at all versions instead of the head and left state and manifest inconsistent")
fixed("C17 C23 C14","699bcc6","ingest ignored read, write and close errors, left files open and could block forever")
fixed("C13","f1200c1","echo update removed files outside of the updated area and kept files which were no longer in the source")
fixed("C03 C13 C16 C01","8ee2966","content paths of different names collided, unused content stayed in new versions, invalid logical paths were accepted")
fixed("C09 C03 C17","377f12a","extension configurations were stored incompletely, layouts declared foreign names")
fixed("C08 C11 C22 C07","bcc39e6","storage layouts did not follow their specifications (multibyte identifiers, shared hash state, missing padding, panics)")
fixed("C19 C22 C17 C07","743f06f","order and exclusion of extensions depended on map iteration, hook and stream errors were lost or panicked")
fixed("C13 C12 C15","5910adc","areas with a common name prefix were mixed, README.md changed from version to version")
fixed("C10 C01 C16 C17 C03","67c0c53","objects could be created inside of other objects or over existing folders, objects were loaded under a foreign identifier")
fixed("C01 C15 C16 C23","4a5fdef","extraction of an area left out files sharing their content with other areas, write errors were ignored or blocked forever, paths were not checked")
fixed("C13","5de8b80","echo update with explicit areas deleted all files of the default area")
fixed("C03","272d077","unused content left an empty content folder behind")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"findings_more.py")).read())
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","known-findings.jsonl")
with open(out,"w") as f:
    for x in F: f.write(json.dumps(x,ensure_ascii=False)+"\n")
    for x in F:
        if x["status"]=="fixed": f.write(x["text"]+"\n")
