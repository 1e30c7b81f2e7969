G='src/gxfile.cpp'
SEEDS=[
dict(id='c07-width-257',prop='C07',needs='a symbol whose keys in one dimension span exactly 257 values',
 breaks='the key is stored in one byte although its offset needs more: keys are read back modulo 256',
 edits=[(G,"if( N <= 255 ) return TgdxElemSize::sz_byte;","if( N <= 257 ) return TgdxElemSize::sz_byte;")],
 demo=r'''
int main(){ std::string msg; int e,n; 
 { TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxUELRegisterRawStart(); for(int i=1;i<=257;i++) x.gdxUELRegisterRaw(("u"+std::to_string(i)).c_str()); x.gdxUELRegisterDone();
   x.gdxDataWriteStrStart("p","",2,GMS_DT_PAR,0); double v[5]{};
   // first dimension ranges over 1..257
   for(int i=1;i<=257;i++){ std::string a="u"+std::to_string(i), b="u"+std::to_string(250-i%2); const char *ks[20]{a.c_str(),b.c_str()}; v[0]=i; CHECK(x.gdxDataWriteStr(ks,v)); } CHECK(x.gdxDataWriteDone()); x.gdxClose(); }
 { TGXFileObj x{msg}; CHECK(x.gdxOpenRead("a.gdx",e)); CHECK(x.gdxDataReadRawStart(1,n)); int keys[20]; double v[5]; int d;
   for(int i=1;i<=257;i++){ CHECK(x.gdxDataReadRaw(keys,v,d)); CHECK(keys[0]==i); CHECK(keys[1]==250-i%2); CHECK(v[0]==i);} x.gdxDataReadDone(); x.gdxClose(); }
 return 0; }
'''),
dict(id='c06-domflag',prop='C06',needs='a symbol of dimension 8 or more with a regular domain',
 breaks='the flag announcing domain numbers is 0 for symbols of dimension 8 and more although the numbers are written: reader and writer disagree',
 edits=[(G,"FFile->WriteByte( PSy->SDomSymbols ? 1 : 0 );","FFile->WriteByte( PSy->SDomSymbols && PSy->SDim < 8 ? 1 : 0 );")],
 demo=r'''
int main(){ std::string msg; int e; const char *dom[20]; for(auto &d:dom) d="i"; char buf[20][GMS_SSSIZE]; char *bp[20]; for(int k=0;k<20;k++) bp[k]=buf[k];
 { TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); const char *key[20]{"a"}; double v[5]{};
   x.gdxDataWriteStrStart("i","",1,GMS_DT_SET,0); x.gdxDataWriteStr(key,v); x.gdxDataWriteDone();
   for(auto &k:key) k="a"; x.gdxDataWriteStrStart("p","",9,GMS_DT_PAR,0); CHECK(x.gdxSymbolSetDomain(dom)); v[0]=2; x.gdxDataWriteStr(key,v); CHECK(x.gdxDataWriteDone()); x.gdxClose(); }
 { TGXFileObj x{msg}; CHECK(x.gdxOpenRead("a.gdx",e)); CHECK(x.gdxSymbolGetDomainX(2,bp)==3); CHECK(!strcmp(bp[8],"i")); x.gdxClose(); }
 return 0; }
'''),
dict(id='c04-unfinished-domstr',prop='C04',needs='close while a string-mode write with domain checking... is still unfinished (no gdxDataWriteDone)',
 breaks='closing from an unfinished string write does not complete the symbol and writes no index',
 edits=[(G,"if( in( fmode, fw_raw_data, fw_map_data, fw_str_data, fw_dom_raw, fw_dom_map, fw_dom_str ) )// unfinished write","if( in( fmode, fw_raw_data, fw_map_data, fw_str_data, fw_dom_raw, fw_dom_map ) )// unfinished write")],
 demo=r'''
int main(){ std::string msg; int e;
 { TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); 
   CHECK(x.gdxDataWriteStrStart("i","",1,GMS_DT_SET,0)); CHECK(x.gdxClose()==0); }
 { TGXFileObj x{msg}; CHECK(x.gdxOpenRead("a.gdx",e)); int ns,nu; x.gdxSystemInfo(ns,nu); CHECK(ns==1); x.gdxClose(); }
 return 0; }
'''),
dict(id='c05-openread-rw',prop='C05',needs='opening for reading with bit 1 of the read mode set and a file whose access rights allow writing',
 breaks='the file is opened with write access in a reading session',
 edits=[(G,"return gdxOpenReadXX( FileName, FileAccessMode::fmOpenRead, ReadMode, ErrNr );","return gdxOpenReadXX( FileName, ReadMode & 2 ? FileAccessMode::fmOpenReadWrite : FileAccessMode::fmOpenRead, ReadMode, ErrNr );")],
 demo=r'''
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
int main(){ std::string msg; int e;
 { TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxClose(); }
 { TGXFileObj x{msg}; CHECK(x.gdxOpenReadEx("a.gdx",3,e)); int found=0,wr=0;
   for(int fd=3;fd<64;fd++){ char l[64],t[512]; snprintf(l,64,"/proc/self/fd/%d",fd); ssize_t k=readlink(l,t,511); if(k<=0) continue; t[k]=0; if(strstr(t,"a.gdx")){ found++; if((fcntl(fd,F_GETFL)&O_ACCMODE)!=O_RDONLY) wr++; } }
   CHECK(found==1); CHECK(wr==0); x.gdxClose(); }
 return 0; }
'''),
dict(id='c07-delta-255',prop='C07',needs='two consecutive records whose last key differs by exactly the largest relative step',
 breaks='the change code of that record equals the end-of-data mark: the remaining records are lost on reading',
 edits=[(G,"DeltaForWrite = 255 - ( VERSION <= 6 ? MaxDimV148 : FCurrentDim ) - 1;","DeltaForWrite = 255 - ( VERSION <= 6 ? MaxDimV148 : FCurrentDim );")],
 demo=r'''
int main(){ std::string msg; int e,n;
 { TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxUELRegisterRawStart(); for(int i=1;i<=700;i++) x.gdxUELRegisterRaw(("u"+std::to_string(i)).c_str()); x.gdxUELRegisterDone();
   x.gdxDataWriteRawStart("p","",1,GMS_DT_PAR,0); int keys[20]; double v[5]{};
   for(int k=1;k<=690;){ keys[0]=k; v[0]=k; CHECK(x.gdxDataWriteRaw(keys,v)); k+= k<250 ? 1 : (k<260?254:k); } x.gdxDataWriteDone(); x.gdxClose(); }
 { TGXFileObj x{msg}; CHECK(x.gdxOpenRead("a.gdx",e)); CHECK(x.gdxDataReadRawStart(1,n)); int keys[20]; double v[5]; int d,c=0;
   while(x.gdxDataReadRaw(keys,v,d)) { c++; CHECK(v[0]==keys[0]); } CHECK(c==n); x.gdxDataReadDone(); x.gdxClose(); }
 return 0; }
'''),
dict(id='c06-comments',prop='C06',needs='a symbol with comments',
 breaks='the first comment is not written although it is counted: everything after it in the symbol table is misread',
 edits=[(G,"for( int Cnt {}; Cnt < CommentCount; Cnt++ )","for( int Cnt { CommentCount > 2 }; Cnt < CommentCount; Cnt++ )")],
 demo=r'''
int main(){ std::string msg; int e;
 { TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); const char *key[20]{"a"}; double v[5]{};
   x.gdxDataWriteStrStart("i","",1,GMS_DT_SET,0); x.gdxDataWriteStr(key,v); x.gdxDataWriteDone();
   CHECK(x.gdxSymbolAddComment(1,"one")); CHECK(x.gdxSymbolAddComment(1,"two")); CHECK(x.gdxSymbolAddComment(1,"three"));
   x.gdxDataWriteStrStart("p","",1,GMS_DT_PAR,0); v[0]=2; x.gdxDataWriteStr(key,v); CHECK(x.gdxDataWriteDone()); x.gdxClose(); }
 { TGXFileObj x{msg}; CHECK(x.gdxOpenRead("a.gdx",e)); char t[GMS_SSSIZE]; CHECK(x.gdxSymbolGetComment(1,1,t)); CHECK(!strcmp(t,"one")); CHECK(x.gdxSymbolGetComment(1,3,t)); CHECK(!strcmp(t,"three")); x.gdxClose(); }
 return 0; }
'''),
]
SEEDS=[s for s in SEEDS if s['id']!='c04-unfinished-domstr']+[
dict(id='c04-error-no-index',prop='C04',needs='an error reported during the writing session (e.g. a refused operation) before closing',
 breaks='closing then writes no tables and no index: everything written is lost',
 edits=[(G,"   if( fmode == fw_init )\n   {\n      fnConv =","   if( fmode == fw_init && ErrCnt < 3 )\n   {\n      fnConv =")],
 demo=r'''
int main(){ std::string msg; int e;
 { TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); const char *key[20]{"a"}; double v[5]{};
   CHECK(x.gdxDataWriteStrStart("i","",1,GMS_DT_SET,0)); x.gdxDataWriteStr(key,v); CHECK(x.gdxDataWriteDone());
   for(int k=0;k<5;k++) CHECK(!x.gdxDataWriteStrStart("bad name","",1,GMS_DT_SET,0));
   x.gdxClose(); }
 { TGXFileObj x{msg}; CHECK(x.gdxOpenRead("a.gdx",e)); int ns,nu; x.gdxSystemInfo(ns,nu); CHECK(ns==1); x.gdxClose(); }
 return 0; }
'''),
dict(id='c12-static-label',prop='C12',needs='two objects, the same label looked up on one and then on the other',
 breaks='the last lookup is remembered in a static shared by all objects: the second object gets the answer of the first',
 edits=[(G,"   UelNr = UELTable->IndexOf( trimRight( Uel, trimmedUelStorage.data(), trimmedUelLen ) );\n   if( UelNr < 0 ) return false;","   static std::string lastUel;\n   static int lastNr {};\n   if( lastNr > 0 && lastNr <= UELTable->size() && lastUel == Uel ) UelNr = lastNr;\n   else\n      UelNr = UELTable->IndexOf( trimRight( Uel, trimmedUelStorage.data(), trimmedUelLen ) );\n   lastUel = Uel;\n   lastNr = UelNr;\n   if( UelNr < 0 ) return false;")],
 demo=r'''
int main(){ std::string msg; int e,n,k;
 TGXFileObj a{msg}, b{msg}; a.gdxOpenWrite("a.gdx","t",e); b.gdxOpenWrite("b.gdx","t",e);
 a.gdxUELRegisterStrStart(); a.gdxUELRegisterStr("x",n); a.gdxUELRegisterStr("y",n); a.gdxUELRegisterDone();
 b.gdxUELRegisterStrStart(); b.gdxUELRegisterStr("y",n); b.gdxUELRegisterStr("x",n); b.gdxUELRegisterDone();
 CHECK(a.gdxUMFindUEL("x",n,k) && n==1); CHECK(b.gdxUMFindUEL("x",n,k)); CHECK(n==2); return 0; }
'''),
dict(id='c11-export-swap',prop='C11',needs='calling the exported variant with length-prefixed strings',
 breaks='the exported function returns dimension and type in each other\'s place',
 edits=[('generated/gdxcclib.cpp',"gdxSymbolInfo_result = gdxSymbolInfo(TGXFile, SyNr, SyId_sst, Dimen, Typ);","gdxSymbolInfo_result = gdxSymbolInfo(TGXFile, SyNr, SyId_sst, Typ, Dimen);")],
 nopre=True,
 sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g "$here/demo.cpp" -o "$t/demo" -ldl || exit 4
cd "$t" || exit 5
timeout 60 ./demo
''',
 demo=r'''
#include <dlfcn.h>
#include <cstdio>
int main(){ void *h=dlopen("/repo/build/libgdxcclib64.so",RTLD_NOW); if(!h){ puts(dlerror()); return 9; }
 typedef void R; auto cr=(void(*)(R**))dlsym(h,"xcreate"); if(!cr) cr=(void(*)(R**))dlsym(h,"gdxxcreate");
 auto ow=(int(*)(R*,const char*,const char*,int*))dlsym(h,"c__gdxopenwrite");
 auto ws=(int(*)(R*,const char*,const char*,int,int,int))dlsym(h,"c__gdxdatawriterawstart"); auto wd=(int(*)(R*))dlsym(h,"c__gdxdatawritedone");
 auto si=(int(*)(R*,int,char*,int*,int*))dlsym(h,"d__gdxsymbolinfo");
 if(!cr||!ow||!ws||!wd||!si) { puts("symbol missing"); return 8; }
 R *p=nullptr; cr(&p); int e,d=-1,ty=-1; char id[300]; ow(p,"a.gdx","t",&e); ws(p,"p","",3,1,0); wd(p); si(p,1,id,&d,&ty);
 if(d!=3||ty!=1||id[0]!=1||id[1]!='p'){ printf("FAILED %d %d\n",d,ty); return 1; } return 0; }
'''),
]
