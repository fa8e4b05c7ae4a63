import json,subprocess
MAP={
'66d5261':'C16',
'029c421':'C02','f76da16':'C01',
'fabddcc':'C21',
'b473d26':'C20',
'4b1302c':'C19',
'920eac8':'C21','c63f8a7':'C02','4469911':'C13','7ca710d':'C02','44bfa5d':'C22','04c6e9e':'C10','8ea3c02':'C21','b29bbb4':'C21','f17fa69':'C21','547f164':'C20','4442876':'C20','bfde4cc':'C20',
'4f1fa4a':'C18','2835ab9':'C19','4e31b51':'C18','1c7f477':'C17','20ca0a4':'C17','8d440e6':'C16','2a308e8':'C17','2b779f5':'C16','d7a8359':'C17','6e142b0':'C16','fe91792':'C16','3e436ab':'C14','d7c5fbd':'C11','06799af':'C12','b40cd89':'C04','3626f06':'C05','bc93280':'C02','a81864e':'C04','87dbdbe':'C02','f2cd6e8':'C06','3ea302a':'C02','8e61b4e':'C09','2e85436':'C01','c81cdfd':'C01','c162146':'C14','4aa5ecb':'C21','ef23989':'C02','710da9b':'C12','a3a66e7':'C02','7bb6d8c':'C02','2a8a6a1':'C04','2bd6433':'C05','7df3c43':'C09','529f7fc':'C01'}
WHAT={
'66d5261':"the comments of YAML keys and values holding an apostrophe were lost",
'029c421':"arrays of texts, truth values, objects or records were hinted with element types that are no names of numpy",
'f76da16':"subclasses of frozenset were hinted as Set",
'fabddcc':"a function wrapping another with functools.wraps was hinted as returning what the wrapped one returns",
'b473d26':"a DataFrame whose labels are tuples but no levels made the generation fail",
'4b1302c':"differences between two default values holding triple quotes escaped the validation",
'920eac8':"a callable without return annotation whose default values hold an arrow got no return type",
'c63f8a7':"a callable with a default value or annotation that only its module knows gave a module using undefined names",
'4469911':"modules were imported because of symbols of a callable's signature that merely share a name",
'7ca710d':"only the first symbol of a callable's annotations was imported",
'44bfa5d':"to_file failed or wrote other bytes than UTF-8 under locales that are not UTF-8",
'04c6e9e':"generating hints for an open file consumed it (it was hinted as an iterator of its lines)",
'8ea3c02':"a coroutine function was hinted as a plain function",
'b29bbb4':"two callables of equal signature of which only one returns shared a hint",
'f17fa69':"a classmethod object made the generation fail",
'547f164':"DataFrames with equal column names but other column types shared a class",
'4442876':"a DataFrame that repeats a column made the generation fail",
'bfde4cc':"'Do not type hint columns' still failed on, or looked at, the columns",
'4f1fa4a':"an instance of LazyTypeHintLive dropped the classes added by another",
'2835ab9':"validation failed because a docstring was wrapped differently",
'4e31b51':"from_yaml_file of LazyTypeHintLive returned data with hidden documentation keys",
'1c7f477':"comments and nested collections within a YAML list were taken for keys",
'20ca0a4':"YAML keys that begin with a dash lost their type when commented",
'8d440e6':"comments of YAML lists with several spaces after the dash were lost",
'2a308e8':"comments were counted as elements of YAML mappings",
'2b779f5':"side comments of YAML values holding a hash were lost",
'd7a8359':"commented nested YAML lists got additional elements",
'6e142b0':"the side comment of a YAML key documented the next key",
'fe91792':"the end of a YAML file documented its first key",
'3e436ab':"null characters within docstrings made the module invalid",
'd7c5fbd':"a limit of no elements was accepted",
'06799af':"a TypedDict or field whose name begins with two underscores was mangled in class syntax",
'b40cd89':"private keys were mangled in class syntax",
'3626f06':"dictionaries exactly at the similarity threshold did not merge because of rounding",
'bc93280':"functional TypedDicts used the name of a user's class without quotes",
'a81864e':"keys that NFKC changes were declared as other keys",
'87dbdbe':"two aliases could get the same name",
'f2cd6e8':"containers of different types holding the same types shared a hint",
'3ea302a':"renaming a declaration lost text after its second equal sign",
'8e61b4e':"rendering with imports after rendering without (or the reverse) gave the first text",
'2e85436':"arrays of different dtypes shared a hint",
'c81cdfd':"type objects of different classes shared a hint",
'c162146':"backslashes and triple quotes within documentation made the module invalid",
'4aa5ecb':"callables whose source is unknown made the generation fail",
'ef23989':"key characters that identifiers cannot have got into alias names",
'710da9b':"names that are no identifiers were accepted, identifiers refused",
'a3a66e7':"quotes and backslashes of keys were not escaped in functional TypedDicts",
'7bb6d8c':"fields of TypedDicts referred to aliases by a name never declared",
'2a8a6a1':"TypedDicts that differ in required keys only shared one declaration",
'2bd6433':"dictionaries whose values have different inner types were merged",
'7df3c43':"hints depended on the order in which a set of children is walked",
'529f7fc':"a mapping with the key None made the generation fail or lost the key",
}
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
out=[]
for l in reversed(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    p=MAP[h]
    out.append({"id":f"fixed-{h}","property":p,"status":"fixed","commit":h,"what":WHAT[h],"entry":f"fixed: property={p} {h} {WHAT[h]}"})
json.dump({"findings":out},open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False)
