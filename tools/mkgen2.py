leaves = [('bool','BOOLEAN'),('int','INTEGER'),('bits','BIT STRING'),('oct','OCTET STRING'),('nul','NULL'),('oid','OBJECT IDENTIFIER'),('real','REAL'),('enum','ENUMERATED { x, y(5), z(6) }'),('utf8','UTF8String'),('num','NumericString'),('prn','PrintableString'),('ttx','TeletexString'),('vtx','VideotexString'),('ia5','IA5String'),('utc','UTCTime'),('gen','GeneralizedTime'),('gra','GraphicString'),('vis','VisibleString'),('gnl','GeneralString'),('uni','UniversalString'),('bmp','BMPString')]
def lst(pre, post=''):
    return ',\n'.join('  %s %s%s%s' % (n, pre(i), t, post) for i,(n,t) in enumerate(leaves))
def groups():
    r = ''
    for g in range(4):
        r += 'Ch%d ::= CHOICE {\n%s\n}\n' % (g, ',\n'.join('  %s %s' % l for l in leaves[g::4]))
    return r
o = '''Auto DEFINITIONS AUTOMATIC TAGS ::= BEGIN
Pick ::= CHOICE {
  num INTEGER,
  flag BOOLEAN
}
All ::= SEQUENCE {
%s
}
END

Expl DEFINITIONS EXPLICIT TAGS ::= BEGIN
IMPORTS Pick FROM Auto;
AllU ::= SEQUENCE {
%s
}
%sAllX ::= SEQUENCE {
%s
}
AllI ::= SEQUENCE {
%s
}
OptU ::= SEQUENCE {
%s
}
Mixed ::= CHOICE {
  flag BOOLEAN,
  pick Pick
}
MixedOpt ::= SEQUENCE {
  flag BOOLEAN OPTIONAL,
  pick Pick OPTIONAL,
  last OCTET STRING
}
MixedOpt2 ::= SEQUENCE {
  mixed Mixed OPTIONAL,
  last OCTET STRING
}
High ::= SET {
  a [127] INTEGER,
  b [128] IMPLICIT INTEGER OPTIONAL,
  c [PRIVATE 16383] IMPLICIT OCTET STRING OPTIONAL,
  d [APPLICATION 16384] Pick,
  e [31] IMPLICIT BOOLEAN,
  f [PRIVATE 2097152] INTEGER OPTIONAL
}
HighExt ::= SET {
  a [200] INTEGER,
  b [300] IMPLICIT BOOLEAN OPTIONAL,
  c INTEGER,
  ...
}
ExtDef ::= SEQUENCE {
  s OCTET STRING,
  n INTEGER DEFAULT 5,
  t UTF8String OPTIONAL,
  ...
}
ExtMid ::= SEQUENCE {
  a INTEGER,
  ...,
  b BOOLEAN OPTIONAL
}
Empty ::= SEQUENCE { }
EmptyExt ::= SET { ... }
Lists ::= SEQUENCE {
  a SEQUENCE OF OCTET STRING,
  b [0] SET OF Pick,
  c [1] IMPLICIT SEQUENCE OF Mixed OPTIONAL,
  d [2] SEQUENCE OF SEQUENCE OF BOOLEAN
}
END

Impl DEFINITIONS IMPLICIT TAGS ::= BEGIN
IMPORTS Pick FROM Auto;
All ::= SEQUENCE {
%s
}
Holder ::= SEQUENCE {
  a [0] Pick,
  b [1] Pick OPTIONAL,
  c CHOICE { x BOOLEAN, y [5] Pick } OPTIONAL,
  d NULL
}
Either ::= CHOICE {
  pick Pick,
  other [7] Pick,
  last NULL
}
END
''' % (lst(lambda i:''), lst(lambda i:''), groups(), lst(lambda i:'[%d] '%i), lst(lambda i:'[%d] IMPLICIT '%(i+20)), lst(lambda i:'',' OPTIONAL'), lst(lambda i:'[APPLICATION %d] '%i))
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__)) + '/../specs/gen2.asn','w').write(o)
