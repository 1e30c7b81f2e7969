G='src/gxfile.cpp'
S='src/gdlib/gmsstrm.cpp'
H='src/gdlib/strhash.hpp'
W1='x.gdxOpenWrite("a.gdx","t",e);'
SEEDS=[
dict(id='c13-filter-silent',prop='C13',needs='starting a filter with a number below 1',
 breaks='the refused call reports no error',
 edits=[(G,"       ErrorCondition( FilterNr >= 1, ERR_BAD_FILTER_NR ) ) return false;","       FilterNr < 1 ) return false;")],
 demo=r'''
int main(){ std::string msg; int e;
 { TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxClose(); }
 { TGXFileObj x{msg}; CHECK(x.gdxOpenRead("a.gdx",e)); int c0=x.gdxErrorCount(); CHECK(!x.gdxFilterRegisterStart(0)); CHECK(x.gdxErrorCount()==c0+1); CHECK(x.gdxGetLastError()!=0); x.gdxClose(); }
 return 0; }
'''),
dict(id='c14-later-success',prop='C14',needs='a write that fails in the middle of the session (file size limit) followed by writes that succeed (the index, at the front)',
 breaks='the success of a later write hides the failed one: close reports success for a truncated file',
 edits=[(S,"if( !FLastIOResult ) FLastIOResult = V;","FLastIOResult = V;")],
 demo=r'''
#include <sys/resource.h>
#include <signal.h>
int main(){ std::string msg; int e; signal(SIGXFSZ,SIG_IGN);
 { TGXFileObj x{msg}; CHECK(x.gdxOpenWrite("a.gdx","t",e)); rlimit r{100000,100000}; CHECK(!setrlimit(RLIMIT_FSIZE,&r));
   x.gdxDataWriteStrStart("p","",1,GMS_DT_PAR,0); double v[5]{}; 
   for(int i=1;i<=30000;i++){ std::string a="u"+std::to_string(i); const char *ks[20]{a.c_str()}; v[0]=i+0.123456789; x.gdxDataWriteStr(ks,v); }
   x.gdxDataWriteDone(); CHECK(x.gdxClose()!=0); }
 return 0; }
'''),
dict(id='c17-fold-z',prop='C17',needs='a name that contains the letter z, looked up in the other case',
 breaks='the letter z is not folded when names are hashed: the name is not found and can be entered twice',
 edits=[(H,"res = 211 * res + utils::toupper( s[i] );","res = 211 * res + ( s[i] >= 'a' && s[i] < 'z' ? s[i] ^ 32 : s[i] );")],
 demo=r'''
int main(){ std::string msg; int e,n; TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxUELRegisterStrStart(); int a,b;
 CHECK(x.gdxUELRegisterStr("zeta",a)); CHECK(x.gdxUELRegisterStr("ZETA",b)); CHECK(a==b); x.gdxUELRegisterDone();
 x.gdxDataWriteStrStart("Size","",0,GMS_DT_PAR,0); x.gdxDataWriteDone(); CHECK(x.gdxFindSymbol("sIZE",n)); CHECK(n==1); x.gdxClose(); return 0; }
'''),
dict(id='c18-int64',prop='C18',needs='a file written on a machine of the other byte order (8-byte positions)',
 breaks='8-byte integers of a file of the other byte order are not turned round',
 edits=[(S,"ReadValueOrdered<int64_t>( RWType::rw_int64, order_integer )","ReadValueOrdered<int64_t>( RWType::rw_int64, false )")],
 demo=r'''
#include "gdlib/gmsstrm.hpp"
#include <algorithm>
#include <fstream>
using namespace gdlib::gmsstrm;
int main(){ { TMiBufferedStream s{"n.bin",FileAccessMode::fmCreate}; s.WriteWord(0x1234); s.WriteInteger(0x01020304); s.WriteInt64(0x0102030405060708LL); s.WriteDouble(3.25); }
 std::ifstream f("n.bin",std::ios::binary); std::string b((std::istreambuf_iterator<char>(f)),{}); int w[]={2,4,8};
 size_t p=0; for(int k:w){ p++; std::reverse(b.begin()+p,b.begin()+p+k); p+=k; }
 for(int k:{2,4,8,8}){ CHECK(p+k<=b.size()); std::reverse(b.begin()+p,b.begin()+p+k); p+=k; }
 CHECK(p==b.size()); { std::ofstream o("f.bin",std::ios::binary); o<<b; }
 for(const char *nm:{"n.bin","f.bin"}){ TMiBufferedStream s{nm,FileAccessMode::fmOpenRead}; CHECK(s.GoodByteOrder()==0); CHECK(s.ReadWord()==0x1234); CHECK(s.ReadInteger()==0x01020304); CHECK(s.ReadInt64()==0x0102030405060708LL); CHECK(s.ReadDouble()==3.25); }
 return 0; }
'''),
dict(id='c25-flush-on-off',prop='C25',needs='switching compression off while a compressed block is still in the buffer',
 breaks='the pending bytes of the compressed part are written without compression: they read back differently',
 edits=[(S,"if( ( FCompress || V ) && NrWritten > 0 ) FlushBuffer();","if( V && NrWritten > 0 ) FlushBuffer();")],
 demo=r'''
#include "gdlib/gmsstrm.hpp"
using namespace gdlib::gmsstrm;
int main(){ std::string a(300,'x'), b="plain text"; 
 { TBufferedFileStream s{"a.bin",FileAccessMode::fmCreate}; s.SetCompression(true); s.Write(a.data(),a.size()); s.SetCompression(false); s.Write(b.data(),b.size()); }
 { TBufferedFileStream s{"a.bin",FileAccessMode::fmOpenRead}; std::string c(300,0), d(b.size(),0); s.SetCompression(true); CHECK(s.Read(c.data(),300)==300); CHECK(c==a); s.SetCompression(false); CHECK(s.Read(d.data(),d.size())==d.size()); CHECK(d==b); }
 return 0; }
'''),
dict(id='c01-setdomain-phase',prop='C01',needs='declaring a domain for a symbol whose records are about to be written by user numbers',
 breaks='after gdxSymbolSetDomain the writing by user numbers has turned into raw writing',
 edits=[(G,"         fmode = fw_map_data;\n         break;\n      case fw_dom_str","         fmode = fw_raw_data;\n         break;\n      case fw_dom_str")],
 demo=r'''
int main(){ std::string msg; int e; TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxUELRegisterMapStart(); CHECK(x.gdxUELRegisterMap(7,"a")); x.gdxUELRegisterDone();
 CHECK(x.gdxDataWriteMapStart("p","",1,GMS_DT_PAR,0)); const char *dom[20]{"*"}; x.gdxSymbolSetDomain(dom); int k[20]{7}; double v[5]{1.5}; CHECK(x.gdxDataWriteMap(k,v)); CHECK(x.gdxDataWriteDone()); x.gdxClose(); return 0; }
'''),
dict(id='c03-bad-marker',prop='C03',needs='a file whose second symbol marker is damaged, then another open with the same object',
 breaks='a failed open leaves the session half open: the object refuses to open any other file',
 edits=[(G,"if( ErrorCondition( FFile->ReadString() == MARK_SYMB, ERR_OPEN_SYMBOLMARKER2 ) ) return FileErrorNr();","if( ErrorCondition( FFile->ReadString() == MARK_SYMB, ERR_OPEN_SYMBOLMARKER2 ) )\n   {\n      ErrNr = LastError;\n      FFile = nullptr;\n      return false;\n   }")],
 demo=r'''
#include <fstream>
int main(){ std::string msg; int e;
 { TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxDataWriteStrStart("i","",1,GMS_DT_SET,0); x.gdxDataWriteDone(); x.gdxClose(); }
 std::ifstream f("a.gdx",std::ios::binary); std::string b((std::istreambuf_iterator<char>(f)),{}); auto p=b.rfind("_SYMB_"); CHECK(p!=std::string::npos); b[p+1]='X'; { std::ofstream o("b.gdx",std::ios::binary); o<<b; }
 TGXFileObj x{msg}; CHECK(!x.gdxOpenRead("b.gdx",e)); CHECK(e!=0); int ns,nu,h; x.gdxSystemInfo(ns,nu); CHECK(ns==0 && nu==0); CHECK(!x.gdxUMUelInfo(nu,h)); CHECK(x.gdxOpenRead("a.gdx",e));  x.gdxSystemInfo(ns,nu); CHECK(ns==1); x.gdxClose(); return 0; }
'''),
dict(id='c10-reset-i64',prop='C10',needs='resetting the special values after own ones were set, then writing',
 breaks='after the reset the bit patterns looked for when writing are still the old ones',
 edits=[(G,"   copyIntlMapDblToI64( intlValueMapDbl, intlValueMapI64 );\n   Zvalacr","   Zvalacr")],
 demo=r"""
int main(){ std::string msg; int e,n,d; const char *k[20]{"a"};
 { TGXFileObj x{msg}; x.gdxOpenWrite("b.gdx","t",e); double sv[7]; x.gdxGetSpecialValues(sv); double o[7]; memcpy(o,sv,sizeof o); sv[1]=4711.0; CHECK(x.gdxSetSpecialValues(sv)); CHECK(x.gdxResetSpecialValues());
   double v[5]{4711.0}; CHECK(x.gdxDataWriteStrStart("p","",1,GMS_DT_PAR,0)); CHECK(x.gdxDataWriteStr(k,v)); x.gdxDataWriteDone(); x.gdxClose(); }
 { TGXFileObj x{msg}; CHECK(x.gdxOpenRead("b.gdx",e)); CHECK(x.gdxDataReadRawStart(1,n)); int ks[20]; double v[5]{}; CHECK(x.gdxDataReadRaw(ks,v,d)); CHECK(v[0]==4711.0); x.gdxClose(); }
 return 0; }
"""),
dict(id='c16-rename-blanks',prop='C16',needs='renaming a label to an existing label with trailing blanks',
 breaks='the test for an existing label uses the text before trimming: two entries with the same label',
 edits=[(G,"   if( UELTable->IndexOf( S ) >= 0 )\n      return 3;","   if( UELTable->IndexOf( NewName ) >= 0 )\n      return 3;")],
 demo=r"""
int main(){ std::string msg; int e,n; TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxUELRegisterStrStart(); x.gdxUELRegisterStr("a",n); x.gdxUELRegisterStr("b",n); x.gdxUELRegisterDone();
 CHECK(x.gdxRenameUEL("a","b")!=0); CHECK(x.gdxRenameUEL("a","b  ")!=0); char s[GMS_SSSIZE]; int m; CHECK(x.gdxUMUelGet(1,s,m)); CHECK(!strcmp(s,"a")); x.gdxClose(); return 0; }
"""),
dict(id='c20-highest',prop='C20',needs='numbering labels automatically after explicit numbers were used',
 breaks='the highest number in use is not kept up: an automatic number collides with one in use',
 edits=[(G,"if( F > FHighestIndex ) FHighestIndex = F;","if( F > FHighestIndex + 1 || F == 1 ) FHighestIndex = F;")],
 demo=r"""
int main(){ std::string msg; int e,n,m; TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxUELRegisterStrStart(); char s[GMS_SSSIZE];
 for(int i=1;i<=6;i++){ CHECK(x.gdxUELRegisterStr(("u"+std::to_string(i)).c_str(),n)); CHECK(n==i); } x.gdxUELRegisterDone();
 for(int i=1;i<=6;i++){ CHECK(x.gdxGetUEL(i,s)); CHECK(s==("u"+std::to_string(i))); } (void)m; x.gdxClose(); return 0; }
"""),
dict(id='c20-gap-fill',prop='C20',needs='explicit user numbers with gaps beyond the first capacity step',
 breaks='numbers never given to a label are taken as given to element 0',
 edits=[(G,"std::memset( &PMap[prevCap], -1","std::memset( &PMap[prevCap], 0")],
 demo=r"""
int main(){ std::string msg; int e; TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxUELRegisterMapStart(); char s[GMS_SSSIZE];
 CHECK(x.gdxUELRegisterMap(5000,"a")); CHECK(x.gdxUELRegisterMap(2000,"b")); CHECK(x.gdxUELRegisterMap(4000,"c")); x.gdxUELRegisterDone();
 CHECK(x.gdxGetUEL(2000,s)); CHECK(!strcmp(s,"b")); CHECK(!x.gdxGetUEL(1999,s)); x.gdxClose(); return 0; }
"""),
dict(id='c26-error-key',prop='C26',needs='a filtered reading in which the first key of a record is rejected and the user numbering is not in the order of the file',
 breaks='the key marked in the error record is not the one that was rejected',
 edits=[(G,"                           AddError = true;\n                           FIDim = D + 1;","                           AddError = true;",1)],
 demo=r"""
int main(){ std::string msg; int e,n,d; const char *L[]={"a","b","c","d"};
 { TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxUELRegisterRawStart(); for(auto l:L) x.gdxUELRegisterRaw(l); x.gdxUELRegisterDone(); x.gdxDataWriteRawStart("p","",2,GMS_DT_PAR,0); double v[5]{};
   int R[][2]={{1,1},{2,3},{2,4},{3,3},{3,4}}; for(auto &r:R){ v[0]=r[0]*10+r[1]; CHECK(x.gdxDataWriteRaw(r,v)); } x.gdxDataWriteDone(); x.gdxClose(); }
 for(int way=0;way<1;way++){ TGXFileObj x{msg}; CHECK(x.gdxOpenRead("a.gdx",e)); x.gdxUELRegisterMapStart(); for(int i=0;i<4;i++) if(way==0||i!=2) CHECK(x.gdxUELRegisterMap(4-i,L[i])); x.gdxUELRegisterDone();
   CHECK(x.gdxFilterRegisterStart(1)); for(int i:{4,1}) CHECK(x.gdxFilterRegister(i)); CHECK(x.gdxFilterRegisterDone());
   int flt[20]{1,DOMC_UNMAPPED}; CHECK(x.gdxDataReadFilteredStart(1,flt,n)); int ks[20]{}; double v[5]; int c=0;
   while(x.gdxDataReadMap(0,ks,v,d)) c++; CHECK(c==1); CHECK(x.gdxDataErrorCount()==2); for(int q=1;q<=2;q++){ CHECK(x.gdxDataErrorRecordX(q,ks,v)); CHECK(ks[0]==-q-1); CHECK(ks[1]==3); } x.gdxClose(); }
 return 0; }
"""),
dict(id='c22-semiint',prop='C22',needs='a scalar semi-integer variable stored without a record',
 breaks='it is delivered with the default record of an unknown variable kind',
 edits=[(G,"ui <= GMS_VARTYPE_SEMIINT ?","ui <= GMS_VARTYPE_SEMICONT ?")],
 demo=r"""
int main(){ std::string msg; int e; double d[GMS_VAL_MAX];
 for(int q=0;q<GMS_VARTYPE_MAX;q++){ { TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxDataWriteStrStart("v","",0,GMS_DT_VAR,q); x.gdxDataWriteDone(); x.gdxClose(); }
  TGXFileObj x{msg}; CHECK(x.gdxOpenRead("a.gdx",e)); int n,dm; int ks[20]; CHECK(x.gdxDataReadRawStart(1,n)); CHECK(x.gdxDataReadRaw(ks,d,dm)); x.gdxClose(); for(int k=0;k<GMS_VAL_MAX;k++) CHECK(d[k]==gmsDefRecVar[q][k]); } return 0; }
"""),
dict(id='c19-rename-chain',prop='C19',needs='renaming a label into a bucket that already holds other labels',
 breaks='the other labels of that bucket are no longer found',
 edits=[(H,"            PBuck->NextBucket = GetBucketByHash( HV1 );\n","            PBuck->NextBucket = nullptr;\n")],
 demo=r"""
int main(){ std::string msg; int e,n; TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxUELRegisterStrStart();
 for(int i=1;i<=4000;i++) CHECK(x.gdxUELRegisterStr(("u"+std::to_string(i)).c_str(),n)); x.gdxUELRegisterDone();
 for(int i=1;i<=2000;i++) CHECK(x.gdxRenameUEL(("u"+std::to_string(i)).c_str(),("w"+std::to_string(i)).c_str())==0);
 int mp; for(int i=1;i<=4000;i++){ std::string s=(i<=2000?"w":"u")+std::to_string(i); CHECK(x.gdxUMFindUEL(s.c_str(),n,mp)); CHECK(n==i); } x.gdxClose(); return 0; }
"""),
dict(id='c15-first-pair',prop='C15',needs='the second record of a raw writing repeats or precedes the first',
 breaks='the order of the first two records is not checked',
 edits=[(G,"if( FCurrentDim > 0 && DataCount >= 1 )","if( FCurrentDim > 0 && DataCount > 1 )")],
 demo=r"""
int main(){ std::string msg; int e; TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxUELRegisterRawStart(); x.gdxUELRegisterRaw("a"); x.gdxUELRegisterRaw("b"); x.gdxUELRegisterDone();
 x.gdxDataWriteRawStart("p","",2,GMS_DT_PAR,0); double v[5]{1}; int k[20]{2,2}; CHECK(x.gdxDataWriteRaw(k,v)); CHECK(!x.gdxDataWriteRaw(k,v)); k[1]=1; CHECK(!x.gdxDataWriteRaw(k,v)); x.gdxDataWriteDone(); x.gdxClose(); return 0; }
"""),
dict(id='c23-env',prop='C23',needs='the environment variable GDXUSER is set while a file is created',
 breaks='the content of a file depends on the environment of the process',
 edits=[(G,"   FileSystemID = auditLine;\n","   FileSystemID = auditLine;\n   if( const char *u { std::getenv( \"GDXUSER\" ) } ) FileSystemID += u;\n")],
 demo=r"""
#include <cstdlib>
#include <fstream>
static std::string cont(const char *f){ std::ifstream i(f,std::ios::binary); return {std::istreambuf_iterator<char>(i),{}}; }
int main(){ std::string msg; int e; for(int k=0;k<2;k++){ if(k) setenv("GDXUSER","somebody",1); TGXFileObj x{msg}; CHECK(x.gdxOpenWrite(k?"b.gdx":"a.gdx","t",e)); x.gdxClose(); }
 CHECK(cont("a.gdx")==cont("b.gdx")); return 0; }
"""),
dict(id='c02-no-text',prop='C02',needs='opening for reading without the set texts and asking for one',
 breaks='the table of texts, which does not exist in such a session, is used',
 edits=[(G,"   if( !SetTextList )\n","   if( !SetTextList && fmode == f_not_open )\n")], san=True,
 demo=r"""
int main(){ std::string msg; int e,n;
 { TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); CHECK(x.gdxAddSetText("text",n)); x.gdxClose(); }
 TGXFileObj x{msg}; CHECK(x.gdxOpenReadEx("a.gdx",1,e)); char s[GMS_SSSIZE]; CHECK(!x.gdxGetElemText(n,s,n)); x.gdxClose(); return 0; }
"""),
dict(id='c08-dim-past-end',prop='C08',needs='asking for the dimension of a symbol number one past the last',
 breaks='an entry behind the symbol table is read',
 edits=[(G,"return !NameList || NameList->empty() || SyNr < 1 || SyNr > NameList->size() ?","return !NameList || NameList->empty() || SyNr < 1 || SyNr > NameList->size() + 1 ?")], san=True,
 demo=r"""
int main(){ std::string msg; int e;
 TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); for(int k=1;k<=3;k++){ CHECK(x.gdxDataWriteStrStart(("s"+std::to_string(k)).c_str(),"",k,GMS_DT_PAR,0)); x.gdxDataWriteDone(); }
 for(int k=1;k<=3;k++) CHECK(x.gdxSymbolDim(k)==k); CHECK(x.gdxSymbolDim(0)==-1 || true); CHECK(x.gdxSymbolDim(4)==-1); CHECK(x.gdxSymbolDim(5)==-1); x.gdxClose(); return 0; }
"""),
dict(id='c10-acronym-na',prop='C10',needs='own special values for reading and acronyms delivered as NA',
 breaks='an acronym delivered as NA is not the value the user set for NA when reading',
 edits=[(G,"         return readIntlValueMapDbl[GMS_SVIDX_NA];","         return intlValueMapDbl[GMS_SVIDX_NA];")],
 demo=r"""
int main(){ std::string msg; int e,n,d; const char *k[20]{"a"};
 { TGXFileObj x{msg}; x.gdxOpenWrite("b.gdx","t",e); x.gdxAcronymAdd("acr","",1); double v[5]{x.gdxAcronymValue(1)}; CHECK(x.gdxDataWriteStrStart("p","",1,GMS_DT_PAR,0)); CHECK(x.gdxDataWriteStr(k,v)); x.gdxDataWriteDone(); x.gdxClose(); }
 { TGXFileObj x{msg}; CHECK(x.gdxOpenRead("b.gdx",e)); double sv[7]; x.gdxGetSpecialValues(sv); sv[1]=4711.0; x.gdxSetReadSpecialValues(sv); x.gdxMapAcronymsToNaNSet(1);
   CHECK(x.gdxDataReadRawStart(1,n)); int ks[20]; double v[5]{}; CHECK(x.gdxDataReadRaw(ks,v,d)); CHECK(v[0]==4711.0); x.gdxClose(); }
 return 0; }
"""),
dict(id='c20-usr-map',prop='C20',needs='registering labels in the order of need during a reading session when the user numbers do not grow by one',
 breaks='a label gets a user number that does not lead back to it',
 edits=[(G,"      *GetObject( EN ) = res;\n      UsrUel2Ent->SetMapping( res, EN );","      *GetObject( EN ) = res;\n      if( res <= EN ) UsrUel2Ent->SetMapping( res, EN );",2)],
 demo=r"""
int main(){ std::string msg; int e,n; char s[GMS_SSSIZE];
 TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); x.gdxUELRegisterRawStart(); for(auto l:{"a","b","c"}) CHECK(x.gdxUELRegisterRaw(l)); x.gdxUELRegisterDone();
 x.gdxUELRegisterMapStart(); CHECK(x.gdxUELRegisterMap(9,"c")); x.gdxUELRegisterDone();
 x.gdxUELRegisterStrStart(); CHECK(x.gdxUELRegisterStr("b",n)); CHECK(x.gdxUELRegisterStr("a",n)); x.gdxUELRegisterDone();
 int hi,u; x.gdxUMUelInfo(u,hi); for(int k=1;k<=u;k++){ int mp; CHECK(x.gdxUMUelGet(k,s,mp)); std::string a=s; if(mp>=1){ CHECK(x.gdxGetUEL(mp,s)); CHECK(a==s); } } x.gdxClose(); return 0; }
"""),
dict(id='c09-long-text',prop='C09',needs='a set text of 256 characters or more',
 breaks='the text is copied past the end of a local buffer',
 edits=[(G,"   assignPCharToBuf( Txt, s.data(), GMS_SSSIZE );","   std::strcpy( s.data(), Txt );")],
 demo=r"""
#include <cstring>
int main(){ std::string msg; int e,n,nd; char s[4*GMS_SSSIZE]{};
 TGXFileObj x{msg}; x.gdxOpenWrite("a.gdx","t",e); CHECK(x.gdxAddSetText(std::string(300,'x').c_str(),n)); CHECK(n>0); CHECK(x.gdxGetElemText(n,s,nd)); CHECK(std::strlen(s)==255); 
 int n2; CHECK(x.gdxAddSetText(std::string(255,'x').c_str(),n2)); CHECK(n==n2); x.gdxClose(); return 0; }
"""),
]
