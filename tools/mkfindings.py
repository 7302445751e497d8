import subprocess,re
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','ff449cf..'],capture_output=True,text=True).stdout.splitlines()
props={ 'signatures of':'C27','an empty CDATA section':'C05','normalize-space trims':'C22','a numeric literal has':'C11','a missing argument':'C11','appending an attribute':'C06','a function, map or':'C25','a processing-instruction type':'C27','parentheses around':'C27','document-node()':'C28','element, attribute and document':'C27','an exponent sign':'C11','array { } is':'C25','a reference to an undefined':'C11','a blank XPath':'C11','integer arithmetic that':'C13','idiv truncates':'C13','an integer literal beyond':'C13','ne, le and ge':'C15','intersect and except':'C17','a predicate that is not':'C20','some and every remove':'C26','a call with the wrong number':'C11','a path step that mixes':'C19','map keys are':'C25','casts of texts':'C24','translate maps':'C22','codepoints-to-string':'C22','round does not':'C23','substring, subsequence':'C21','index-of skips':'C21','string functions take':'C22','a required keyword':'C11','a missing operand':'C11','instance of a paren':'C27','every item, a function':'C27','each step of a path':'C19','the name test':'C28','position() and last()':'C20','several unary':'C12','names and operators':'C12','the string value of':'C22',
'navigating from':'C06','edits keep':'C06','an edit invalidates':'C09','a start tag cut':'C01','character and entity':'C03','a carriage return':'C05'}
head="# Findings of the checks.  \"known: property=ID input=REGEX :: what fails\" is reported as KNOWN-FINDING; \"fixed:\" entries suppress nothing.\n"
old=open('/verif/known-findings.txt').read().splitlines()
known=[l for l in old if l.startswith('known:')]
out=[]
for l in log:
    h,s=l.split(' ',1); assert s.startswith('fix: '),s; s=s[5:]
    p=[v for k,v in props.items() if s.startswith(k)]
    assert p,s
    out.append(f"fixed: property={p[0]} {h} before it this did not hold: {s}")
open('/verif/known-findings.txt','w').write(head+'\n'.join(known+out)+'\n')
