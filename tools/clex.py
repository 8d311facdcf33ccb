import re,sys
src=open('/repo/gearley/benches/test_case_gcc_part.txt').read()
terms=set(l for l in sys.stdin.read().split())
kw={}
for t in terms:
    kw[t.rstrip('_')]=t
kw={k:v for k,v in kw.items() if k in "auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while".split()}
ops={'...':'elipsis','>>=':'right_assign','<<=':'left_assign','+=':'add_assign','-=':'sub_assign','*=':'mul_assign','/=':'div_assign','%=':'mod_assign','&=':'and_assign','^=':'xor_assign','|=':'or_assign','>>':'right_op','<<':'left_op','++':'inc_op','--':'dec_op','->':'ptr_op','&&':'and_op','||':'or_op','<=':'le_op','>=':'ge_op','==':'eq_op','!=':'ne_op',';':'semicolon','{':'lbrace','}':'rbrace',',':'comma',':':'colon','=':'equal','(':'lparen',')':'rparen','[':'lbracket',']':'rbracket','.':'dot','&':'ampersand','!':'exclamation','~':'tilde','-':'minus','+':'plus','*':'star','/':'slash','%':'percent','<':'langle','>':'rangle','^':'xor','|':'pipe','?':'question'}
assert all(v in terms for v in ops.values()),[v for v in ops.values() if v not in terms]
pat=re.compile(r'\s+|/\*.*?\*/|(?P<id>[A-Za-z_]\w*)|(?P<num>\.?\d[\w.]*)|(?P<str>L?"(?:\\.|[^"\\])*")|(?P<ch>\'(?:\\.|[^\'\\])*\')|(?P<op>'+'|'.join(map(re.escape,sorted(ops,key=lambda x:-len(x))))+')|(?P<dir>\#.*)',re.S)
out=[];i=0
while i<len(src):
    m=pat.match(src,i)
    assert m,(src[i:i+40])
    i=m.end()
    if m['id']: out.append(kw.get(m['id'],'identifier'))
    elif m['num'] or m['ch']: out.append('constant')
    elif m['str']: out.append('string_literal')
    elif m['op']: out.append(ops[m['op']])
print(len(out),file=sys.stderr)
# stop at top-level } after 20000
names=sorted(set(out))
d=0;n=0
for k,t in enumerate(out):
    d+=(t=='lbrace')-(t=='rbrace')
    if d==0 and t=='rbrace' and k>240000: n=k+1;break
    n=k+1
out=out[:n]
short={}
print(' '.join(names))
line=''
import string
for t in out:
    c=string.ascii_letters+string.digits+"!#$%&'()*+,-./:;<=>?@[]^_`{|}~"
    line+=c[names.index(t)]
for a in range(0,len(line),110): print(line[a:a+110])
print(n,len(names),file=sys.stderr)
