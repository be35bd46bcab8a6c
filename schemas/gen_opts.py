#!/usr/bin/env python3
"""Generates opts*.proto and opts.limits.json (the limits the properties talk about are written here,
once, independently of the compiler under test)."""
import json
R={'int8':(-2**7,2**7-1),'int16':(-2**15,2**15-1),'int32':(-2**31,2**31-1),'int64':(-2**63,2**63-1),
   'uint8':(0,2**8-1),'uint16':(0,2**16-1),'uint32':(0,2**32-1),'uint64':(0,2**64-1)}
PAIRS=[(p,c) for ps,cs in (('int32 sint32 sfixed32','int8 int16'),('uint32 fixed32','uint8 uint16'),
 ('int64 sint64 sfixed64','int8 int16 int32'),('uint64 fixed64','uint8 uint16 uint32')) for p in ps.split() for c in cs.split()]
lim={}
PKG='vf.opt'
def L(msg,f,**k): lim['%s.%s.%s'%(PKG,msg,f)]=k
def narrow(name,label,pairs,extra='',comment=False):
    o=['message %s {'%name]
    for n,(p,c) in enumerate(pairs,1):
        f='%s_%s'%(p,c)
        lo,hi=R[c]; L(name,f,min=lo,max=hi,ctype=c+'_t')
        if comment: o.append('  //[[ (spb_opt).type = "%s" ]]\n  %s%s %s = %d%s;'%(c,label,p,f,n,(' [%s]'%extra) if extra else ''))
        else: o.append('  %s%s %s = %d [(spb_opt).type = "%s"%s];'%(label,p,f,n,c,(', '+extra) if extra else ''))
    return o
# ---------------------------------------------------------------- opts.proto: narrow integers
o=['syntax = "proto2";','package vf.opt;','import "spb.proto";','']
o+=narrow('NReq','required ',PAIRS)+['}','']
o+=narrow('NOpt','optional ',PAIRS,comment=True)+['}','']
o+=narrow('NRep','repeated ',PAIRS)+['}','']
o+=narrow('NPack','repeated ',PAIRS,'packed = true')+['}','']
o+=['message NOne {','  oneof one {']+['  '+x for x in narrow('NOne','',PAIRS)[1:]]+['    string s = 50;','  }','}','']
open('opts.proto','w').write('\n'.join(o))
# ---------------------------------------------------------------- optsb.proto: bit fields and enums
o=['syntax = "proto2";','package vf.opt;','import "spb.proto";','']
BITS=[('uint32','uint8',1),('uint32','uint8',7),('uint32','uint16',9),('uint32','uint32',31),('uint32','uint32',32),('int32','int8',2),('int32','int8',8),
 ('int32','int16',13),('int32','int32',31),('sint32','int8',3),('sint32','int16',12),('sint32','int32',25),('fixed32','uint8',5),
 ('fixed32','uint32',17),('sfixed32','int32',5),('sfixed32','int8',4),('int64','int64',40),('int64','int64',63),('int64','int8',6),('uint64','uint64',63),('uint64','uint64',64),
 ('uint64','uint16',3),('sint64','int64',33),('sint64','int32',11),('fixed64','uint64',50),('fixed64','uint8',2),('sfixed64','int64',7),('sfixed64','int16',10)]
o.append('message Bits {')
for n,(p,c,b) in enumerate(BITS,1):
    f='b_%s_%s_%d'%(p,c,b)
    lo,hi=(0,2**b-1) if c[0]=='u' else (-2**(b-1),2**(b-1)-1)
    L('Bits',f,min=lo,max=hi,bits=b)
    o.append('  required %s %s = %d [(spb_opt).type = "%s:%d"];'%(p,f,n,c,b))
o+=['  optional string tail = 100;','}','']
ENUMS=[('E8','int8',[0,1,-128,127]),('EU8','uint8',[0,1,255,200]),('E16','int16',[0,-32768,32767,300]),('EU16','uint16',[0,65535,5,256]),('E32','int32',[0,-2147483648,2147483647,7])]
for k,(e,c,vals) in enumerate(ENUMS):
    opt='  option (spb_enumopt).type = "%s";\n'%c
    head='' if k%2==0 else '//[[ (spb_enumopt).type = "%s" ]]\n'%c
    o.append('%senum %s {\n%s%s\n}'%(head,e,opt if k%2==0 else '','\n'.join('  %s_%d = %d;'%(e,i,v) for i,v in enumerate(vals))))
    lim['enum:%s.%s'%(PKG,e)]={'ctype':c+'_t','min':R[c][0],'max':R[c][1]}
o.append('message Enums {');n=1
for e,c,_ in ENUMS:
    o.append('  required %s q_%s = %d; optional %s o_%s = %d; repeated %s r_%s = %d; repeated %s p_%s = %d [packed = true]; map<int32, %s> m_%s = %d;'%(e,e.lower(),n,e,e.lower(),n+1,e,e.lower(),n+2,e,e.lower(),n+3,e,e.lower(),n+4)); n+=5
o.append('  oneof one { E8 x_e8 = %d; EU16 x_eu16 = %d; }'%(n,n+1))
o.append('}')
open('optsb.proto','w').write('\n'.join(o)+'\n')
# ---------------------------------------------------------------- optsc.proto: containers and sizes
o=['syntax = "proto2";','package vf.opt;','import "spb.proto";',
 'option (spb_fileopt).include = "<array>";','//[[ (spb_fileopt).include = "<deque>" ]]','option (spb_fileopt).include = "<unordered_map>";','option (spb_fileopt).include = "<list>";','',
 'message Item { optional int32 v = 1; optional string s = 2; }','enum En { EZ = 0; EO = 1; ET = 2; }','']
o.append('message Fixed {');n=1
def F(msg,decl,name,opts,**k):
    global n
    o.append('  %s %s = %d [%s];'%(decl,name,n,opts)); n+=1
    if k: L(msg,name,**k)
F('Fixed','required string','q4','(spb_opt).string = "std::array<$,4>"',fixed=4)
F('Fixed','optional string','o4','(spb_opt).string = "std::array<$,4>"',fixed=4)
F('Fixed','repeated string','r8','(spb_opt).string = "std::array<$,8>"',fixed=8)
F('Fixed','required bytes','qb5','(spb_opt).bytes = "std::array<$,5>"',fixed=5)
F('Fixed','optional bytes','ob8','(spb_opt).bytes = "std::array<$,8>"',fixed=8)
F('Fixed','repeated bytes','rb3','(spb_opt).bytes = "std::array<$,3>"',fixed=3)
F('Fixed','optional bytes','ob600','(spb_opt).bytes = "std::array<$,600>"',fixed=600)
F('Fixed','optional string','os300','(spb_opt).string = "std::array<$,300>"',fixed=300)
F('Fixed','repeated int32','ai4','(spb_opt).repeated = "std::array<$,4>", packed = true',count=4)
F('Fixed','repeated fixed64','af2','(spb_opt).repeated = "std::array<$,2>", packed = true',count=2)
F('Fixed','repeated double','ad3','(spb_opt).repeated = "std::array<$,3>", packed = true',count=3)
F('Fixed','repeated bool','ab5','(spb_opt).repeated = "std::array<$,5>", packed = true',count=5)
F('Fixed','repeated sint32','as3','(spb_opt).repeated = "std::array<$,3>", packed = true, (spb_opt).type = "int8"',count=3,min=-128,max=127)
o.append('}');o.append('')
o.append('message Cont {');n=1
F('Cont','repeated int32','dq','(spb_opt).repeated = "std::deque<$>"')
F('Cont','repeated string','dqs','(spb_opt).repeated = "std::deque<$>"')
F('Cont','repeated Item','dqm','(spb_opt).repeated = "std::list<$>"')
F('Cont','repeated uint64','dqp','(spb_opt).repeated = "std::list<$>", packed = true')
F('Cont','map<string, int32>','um','(spb_opt).map = "std::unordered_map<$, @>"')
F('Cont','map<int32, Item>','umi','(spb_opt).map = "std::unordered_map<$, @>"')
F('Cont','optional string','vs','(spb_opt).string = "std::vector<$>"')
F('Cont','repeated string','rvs','(spb_opt).string = "std::vector<$>"')
F('Cont','optional bytes','bd','(spb_opt).bytes = "std::vector<$>"')
o.append('}');o.append('')
o.append('message Max {');n=1
for t,b in (('string',5),('bytes',6)):
    F('Max','required '+t,'q_'+t,'(spb_opt).max_size = %d'%b,max_size=b)
    F('Max','optional '+t,'o_'+t,'(spb_opt).max_size = %d'%(b+2),max_size=b+2)
    F('Max','repeated '+t,'r_'+t,'(spb_opt).max_size = %d, (spb_opt).max_count = 3'%(b+1),max_size=b+1,max_count=3)
    F('Max','optional '+t,'l_'+t,'(spb_opt).max_size = %d'%(b+300),max_size=b+300)
F('Max','repeated int32','c_int','(spb_opt).max_count = 4',max_count=4)
F('Max','repeated sint64','c_pack','(spb_opt).max_count = 4, packed = true',max_count=4)
F('Max','repeated Item','c_msg','(spb_opt).max_count = 2',max_count=2)
F('Max','repeated bool','c_bool','(spb_opt).max_count = 3',max_count=3)
F('Max','repeated bool','c_boolp','(spb_opt).max_count = 3, packed = true',max_count=3)
F('Max','repeated En','c_en','(spb_opt).max_count = 1',max_count=1)
F('Max','repeated double','c_dbl','(spb_opt).max_count = 130, packed = true',max_count=130)
F('Max','optional string','nano','(nanopb).max_size = 9',max_size=9)
o.append('  oneof one {')
F('Max','string','x_string','(spb_opt).max_size = 4',max_size=4)
F('Max','bytes','x_bytes','(spb_opt).max_size = 3',max_size=3)
o.append('  }');o.append('}')
o=[x for x in o]
s='\n'.join(o)+'\n'
s=s.replace(' [(nanopb).max_size = 9];',';')
s=s.replace('  optional string nano','  //[[ (nanopb).max_size = 9 ]]\n  optional string nano')
s+='''message Nano {
  //[[ (nanopb).max_size = 6 ]]
  optional bytes b = 1;
  //[[ (nanopb).max_length = 6 ]]
  required string s = 2;
  //[[ (nanopb).max_count = 3 ]]
  repeated int32 c = 3 [packed = true];
  //[[ (nanopb).max_count = 2 ]]
  repeated string r = 4;
  oneof one {
    //[[ (nanopb).max_length = 4 ]]
    string x = 5;
    int32 y = 6;
  }
  repeated Nano n = 7;
}
//[[ (nanopb_msgopt).max_size = 5 ]]
//[[ (nanopb_msgopt).max_count = 3 ]]
message NanoMsg {
  optional string s = 1;
  repeated bytes b = 2;
  repeated uint32 c = 3;
  //[[ (nanopb).max_size = 8 ]]
  optional string own = 4;
  //[[ (nanopb).max_count = 1 ]]
  repeated Item i = 5;
  //[[ (nanopb).max_length = 4294967295 ]]
  optional string any = 6;
}
'''
L('Nano','b',max_size=6);L('Nano','s',max_size=7);L('Nano','c',max_count=3);L('Nano','r',max_count=2);L('Nano','x',max_size=5)
L('NanoMsg','s',max_size=5);L('NanoMsg','b',max_size=5,max_count=3);L('NanoMsg','c',max_count=3);L('NanoMsg','own',max_size=8);L('NanoMsg','i',max_count=1)
open('optsc.proto','w').write(s)
# ---------------------------------------------------------------- optsf.proto: message and file level limits
o='''syntax = "proto3";
package vf.opt;
import "spb.proto";
option (spb_fileopt).max_size = 20;
option (spb_fileopt).max_count = 6;
option (spb_fileopt).include = "<array>";
option (spb_fileopt).enum = "int16";

enum FE { FZ = 0; FO = 1; FN = -300; }
message FileLim { string a = 1; bytes b = 2; repeated string r = 3; repeated int32 i = 4; string own = 5 [(spb_opt).max_size = 3]; repeated FE e = 6 [(spb_opt).max_count = 2]; }
message MsgLim {
  option (spb_msgopt).max_size = 7;
  option (spb_msgopt).max_count = 2;
  string a = 1; bytes b = 2; repeated string r = 3; repeated int32 i = 4; string own = 5 [(spb_opt).max_size = 11]; repeated FileLim m = 6;
  optional string fs = 7 [(spb_opt).string = "std::array<$, 5>"]; repeated string rfs = 8 [(spb_opt).string = "std::array<$,7>"]; repeated bytes fb = 9 [(spb_opt).bytes = "std::array<$,6>"];
}
'''
open('optsf.proto','w').write(o)
FL=dict(max_size=20); FC=dict(max_count=6); ML=dict(max_size=7); MC=dict(max_count=2)
L('FileLim','a',**FL);L('FileLim','b',**FL);L('FileLim','r',**FL,**FC);L('FileLim','i',**FC);L('FileLim','own',max_size=3);L('FileLim','e',max_count=2)
L('MsgLim','a',**ML);L('MsgLim','b',**ML);L('MsgLim','r',**ML,**MC);L('MsgLim','i',**MC);L('MsgLim','own',max_size=11);L('MsgLim','m',**MC)
L('MsgLim','fs',fixed=5,**ML);L('MsgLim','rfs',fixed=7,**ML,**MC);L('MsgLim','fb',fixed=6,**ML,**MC)
lim['enum:vf.opt.FE']={'ctype':'int16_t','min':-32768,'max':32767}
json.dump(lim,open('opts.limits.json','w'),indent=0,sort_keys=True)
