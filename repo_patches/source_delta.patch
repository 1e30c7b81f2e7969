From e00e59b45419c001bd7824418793d50c3bee8bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:16 +0000
Subject: [PATCH 01/20] fix: acronym numbers are checked against both bounds

gdxAcronymSetInfo and gdxAcronymGetMapping tested N >= 1 || N <= size, which
is always true, and indexed the acronym list with any number.
---
 src/gxfile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 2f4f788..8ce91d7 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2994,7 +2994,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3030,7 +3030,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 || N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
-- 
2.43.0


From 6d3f5f8ab992beb4bbb9ae42c6a6d6f1cdfbde3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:27 +0000
Subject: [PATCH 02/20] fix: acronym queries on a closed object no longer use a
 missing acronym list

---
 src/gxfile.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 8ce91d7..e8834a3 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2969,7 +2969,7 @@ int TGXFileObj::gdxAcronymCount() const
 
 int TGXFileObj::gdxAcronymGetInfo( int N, char *AName, char *Txt, int &AIndx ) const
 {
-   if( N < 1 || N > AcronymList->size() )
+   if( !AcronymList || N < 1 || N > AcronymList->size() )
    {
       AName[0] = Txt[0] = '\0';
       AIndx = 0;
@@ -2994,7 +2994,7 @@ int TGXFileObj::gdxAcronymSetInfo( int N, const char *AName, const char *Txt, in
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymSetInfo: "s + AName + " index = " + rtl::sysutils_p3::IntToStr( AIndx ) ); // NOTE: Not covered by unit tests yet.
 
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList && N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    if( auto &obj = ( *AcronymList )[N - 1];
       in( fmode, AnyWriteMode ) || obj.AcrAutoGen )
    {
@@ -3030,7 +3030,7 @@ int TGXFileObj::gdxAcronymGetMapping( int N, int &orgIndx, int &newIndx, int &au
 {
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "AcronymGetMapping: N = "s + rtl::sysutils_p3::IntToStr( N ) ); // NOTE: Not covered by unit tests yet.
-   if( ErrorCondition( N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
+   if( ErrorCondition( AcronymList && N >= 1 && N <= (int) AcronymList->size(), ERR_BADACRONUMBER ) ) return false;
    const auto &obj = ( *AcronymList )[N - 1];
    orgIndx = obj.AcrMap;
    newIndx = obj.AcrReadMap;
@@ -3220,6 +3220,7 @@ int TGXFileObj::gdxSetTraceLevel( int N, const char *s )
 
 int TGXFileObj::gdxAcronymAdd( const char *AName, const char *Txt, int AIndx )
 {
+   if( ErrorCondition( AcronymList != nullptr, ERR_BADMODE ) ) return -1;
    for( int N {}; N < (int) AcronymList->size(); N++ )
    {
       const auto &obj = ( *AcronymList )[N];
@@ -3250,7 +3251,7 @@ int TGXFileObj::gdxAcronymName( double V, char *AName )
       AName[0] = '\0';
    else
    {
-      const int N { AcronymList->FindEntry( Indx ) };
+      const int N { AcronymList ? AcronymList->FindEntry( Indx ) : -1 };
       assignStrToBuf( N < 0 ? "UnknownAcronym"s + rtl::sysutils_p3::IntToStr( Indx ) : ( *AcronymList )[N].AcrName, AName, GMS_SSSIZE );
       return true;
    }
-- 
2.43.0


From 95dfa947f19b43dab37b0c4049615944a3b56198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:38 +0000
Subject: [PATCH 03/20] fix: symbol and element queries on a closed object no
 longer use missing tables

---
 src/gxfile.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index e8834a3..d51324e 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2373,7 +2373,7 @@ int TGXFileObj::gdxSetSpecialValues( const double *AVals )
 
 int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 {
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
    for( int D {}; D < SyPtr->SDim; D++ )
       DomainSyNrs[D] = !SyPtr->SDomSymbols ? 0 : SyPtr->SDomSymbols[D];
@@ -2382,7 +2382,7 @@ int TGXFileObj::gdxSymbolGetDomain( int SyNr, int *DomainSyNrs )
 
 int TGXFileObj::gdxSymbolGetDomainX( int SyNr, char **DomainIDs )
 {
-   if( ErrorCondition( !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
+   if( ErrorCondition( NameList && !NameList->empty() && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return 0;
    const TgdxSymbRecord *SyPtr { ( *NameList->GetObject( SyNr ) ) };
 
    for( int D {}; D < SyPtr->SDim; D++ )
@@ -2549,7 +2549,7 @@ int TGXFileObj::gdxSymbolSetDomain( const char **DomainIDs )
 int TGXFileObj::gdxSymbolSetDomainX( int SyNr, const char **DomainIDs )
 {
    // check for write or append only
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    TgdxSymbRecord * const SyPtr = *NameList->GetObject( SyNr );
 
    if( verboseTrace && TraceLevel == TraceLevels::trl_all )
@@ -3117,7 +3117,7 @@ int TGXFileObj::gdxSetTextNodeNr( int TxtNr, int Node )
 int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomainIndexProc_t DP, int &NrElem, void *UPtr )
 {
    gdxGetDomainElements_DP = DP;
-   if( ErrorCondition( SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
+   if( ErrorCondition( NameList && SyNr >= 1 && SyNr <= NameList->size(), ERR_BADSYMBOLINDEX ) ) return false;
    int Dim { ( *NameList->GetObject( SyNr ) )->SDim };
    if( !Dim || ErrorCondition( DimPos >= 1 && DimPos <= Dim, ERR_BADDIMENSION ) ) return false;
    const TDFilter *DFilter = FilterNr == DOMC_EXPAND ? nullptr : FilterList->FindFilter( FilterNr );
@@ -3523,6 +3523,7 @@ int TGXFileObj::gdxSymbIndxMaxLength( int SyNr, int *LengthInfo )
 int TGXFileObj::gdxSymbMaxLength() const
 {
    int acc {};
+   if( !NameList ) return acc;
    for( int N { 1 }; N <= NameList->Count(); N++ )
       acc = std::max<int>( acc, static_cast<int>( std::strlen( NameList->GetString( N ) ) ) );
    return acc;
@@ -3565,7 +3566,7 @@ int TGXFileObj::gdxSymbolGetComment( int SyNr, int N, char *Txt )
 
 int TGXFileObj::gdxUELMaxLength() const
 {
-   return UELTable->GetMaxUELLength();
+   return UELTable ? UELTable->GetMaxUELLength() : 0;
 }
 
 int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
-- 
2.43.0


From 3427aa84e27a22dacbd964a200d1ee2d1d11b35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:49 +0000
Subject: [PATCH 04/20] fix: bulk read operations stop when the read of the
 symbol could not be started

The result of PrepareSymbolRead was ignored, so a refused or failed start went
on reading without a current symbol.
---
 src/gxfile.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index d51324e..3ef05c6 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3134,7 +3134,7 @@ int TGXFileObj::gdxGetDomainElements( int SyNr, int DimPos, int FilterNr, TDomai
    TIndex XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
 
    // Following call also clears ErrorList
-   PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data );
+   if( PrepareSymbolRead( "gdxGetDomain"s, SyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
    int AFDim;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    while( DoRead( AVals.data(), AFDim ) )
@@ -3300,7 +3300,7 @@ int TGXFileObj::gdxDataReadSliceStart( int SyNr, int *ElemCounts )
    //-- Note: PrepareSymbolRead checks for the correct status
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
    SliceSyNr = SyNr;
-   PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data );
+   if( PrepareSymbolRead( "DataReadSliceStart"s, SliceSyNr, XDomains.data(), fr_raw_data ) < 0 ) return false;
 
    memset( ElemCounts, 0, sizeof( int ) * GLOBAL_MAX_INDEX_DIM );
 
@@ -3360,7 +3360,7 @@ int TGXFileObj::gdxDataReadSlice( const char **UelFilterStr, int &Dimen, TDataSt
    fmode = fr_init;
    if( !GoodIndx ) return false;
    const auto XDomains = arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED );
-   PrepareSymbolRead( "DataReadSlice"s, SliceSyNr, XDomains.data(), fr_slice );
+   if( PrepareSymbolRead( "DataReadSlice"s, SliceSyNr, XDomains.data(), fr_slice ) < 0 ) return false;
    TgdxValues Values;
    TgdxUELIndex HisIndx;
    int FDim;
@@ -3673,6 +3673,7 @@ int TGXFileObj::gdxDataReadRawFast( int SyNr, TDataStoreProc_t DP, int &NrRecs )
 {
    const auto XDomains { arrayWithValue<int, GLOBAL_MAX_INDEX_DIM>( DOMC_UNMAPPED ) };
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFast"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, GMS_VAL_SCALE + 1> AVals {};
    int AFDim;
    while( DoRead( AVals.data(), AFDim ) )
@@ -3688,6 +3689,7 @@ int TGXFileObj::gdxDataReadRawFastEx( int SyNr, TDataStoreExProc_t DP, int &NrRe
    //do not know dimension yet
    std::fill( XDomains.begin(), XDomains.end(), DOMC_UNMAPPED );
    NrRecs = PrepareSymbolRead( "gdxDataReadRawFastEx"s, SyNr, XDomains.data(), fr_raw_data );
+   if( NrRecs < 0 ) return false;
    std::array<double, valscale + 1> AVals {};
    int AFDim;
    if( gdxDataReadRawFastEx_DP_CallByRef )
-- 
2.43.0


From b2ded9355271e557a05f18e90a30d25233892bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:59 +0000
Subject: [PATCH 05/20] fix: a refused read or write start keeps the session
 and its current symbol

Starting or ending a read out of context put a closed or writing object into
reading mode, and a refused start discarded the symbol being written.
---
 src/gxfile.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 3ef05c6..09fabf9 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -730,12 +730,12 @@ bool TGXFileObj::PrepareSymbolWrite( const std::string_view Caller,
                                      int AType,
                                      int AUserInfo )
 {
+   if( !MajorCheckMode( Caller, fw_init ) ) return false;
+
    CurSyPtr = nullptr;
    ErrorList = nullptr;
    SortList = nullptr;
 
-   if( !MajorCheckMode( Caller, fw_init ) ) return false;
-
    if( TraceLevel >= TraceLevels::trl_some )
       WriteTrace( "Symbol = "s + AName + ", Dim = "s + rtl::sysutils_p3::IntToStr( ADim ) );
 
@@ -880,17 +880,16 @@ int TGXFileObj::PrepareSymbolRead( const std::string_view Caller, int SyNr, cons
 {
    if( in( fmode, fr_str_data, fr_map_data, fr_mapr_data, fr_raw_data ) )
       gdxDataReadDone();// NOTE: Not covered by unit tests yet.
-   NrMappedAdded = 0;
-   ErrorList = nullptr;
-   CurSyPtr = nullptr;
-   SortList = nullptr;
-
    if( !MajorCheckMode( Caller, fr_init ) )
    {
       // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
+      if( fstatus == stat_read ) fmode = fr_init;
       return -1;
    }
+   NrMappedAdded = 0;
+   ErrorList = nullptr;
+   CurSyPtr = nullptr;
+   SortList = nullptr;
    ReadUniverse = !SyNr;
    if( !ReadUniverse )
    {
@@ -1776,14 +1775,14 @@ int TGXFileObj::gdxDataReadStr( char **KeyStr, double *Values, int &DimFrst )
 int TGXFileObj::gdxDataReadDone()
 {
    static const TgxModeSet AllowedMode { fr_init, fr_raw_data, fr_map_data, fr_mapr_data, fr_str_data, fr_slice };
-   SortList = nullptr;
-   CurSyPtr = nullptr;
    if( !MajorCheckMode( "DataReadDone"s, AllowedMode ) )
    {
       // NOTE: Not covered by unit tests yet.
-      fmode = fr_init;
+      if( fstatus == stat_read ) fmode = fr_init;
       return false;
    }
+   SortList = nullptr;
+   CurSyPtr = nullptr;
    /*if( fmode == fr_slice )
    {
       for( int D {}; D < GLOBAL_MAX_INDEX_DIM; D++ )
-- 
2.43.0


From c0ee230e99315ecd275ac46b3d6c26947ca6083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:10 +0000
Subject: [PATCH 06/20] fix: closing completes the file from every writing
 phase

After the start of a symbol without records or during the registration of
elements, gdxClose dropped the file without symbol table and index.
---
 src/gxfile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 09fabf9..d9754f2 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -537,7 +537,9 @@ int TGXFileObj::gdxClose()
       debugStream << "gdxClose("s << ( FFile ? FFile->GetFileName() : ""s ) << ")\n"s;// NOTE: Not covered by unit tests yet.
 
    std::string fnConv;
-   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data ) )// unfinished write
+   if( in( fmode, f_raw_elem, f_map_elem, f_str_elem ) )// unfinished registration
+      gdxUELRegisterDone();
+   if( in( fmode, fw_raw_data, fw_map_data, fw_str_data, fw_dom_raw, fw_dom_map, fw_dom_str ) )// unfinished write
       gdxDataWriteDone();                                         // NOTE: Not covered by unit tests yet.
    if( fmode == fw_init )
    {
-- 
2.43.0


From d7e67ae913e5bf8434217d8fd838e2eda5d8ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:21 +0000
Subject: [PATCH 07/20] fix: closing drops the pointers to the released symbols
 and filters

---
 src/gxfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index d9754f2..206fa73 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -652,6 +652,8 @@ int TGXFileObj::gdxClose()
    FilterList = nullptr;
    AcronymList = nullptr;
    MapSetText = nullptr;
+   CurSyPtr = nullptr;
+   CurFilter = nullptr;
 
    fmode = f_not_open;
    fstatus = stat_notopen;
-- 
2.43.0


From 0154e4c006f12fbf7e21dd49d4f010bce14ded56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:30 +0000
Subject: [PATCH 08/20] fix: a failed open releases everything read so far

The tables of a rejected file stayed visible in the closed object and its
symbol records were leaked.
---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 206fa73..4a401e4 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1875,7 +1875,7 @@ int TGXFileObj::gdxOpenReadXX( const char *Afn, int filemode, int ReadMode, int
 
    auto FileErrorNr = [&] {
       ErrNr = LastError;
-      FFile = nullptr;
+      gdxClose();
       return false;
    };
 
-- 
2.43.0


From 637a2994a94480a2de62173b73d5d98bfb5610fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:40 +0000
Subject: [PATCH 09/20] fix: mapped read of a scalar without records does not
 use a missing sort list

---
 src/gxfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 4a401e4..23e603f 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2810,7 +2810,7 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
    if( fmode == fr_map_data )
    {
       DimFrst = 0;
-      if( !ReadPtr || !SortList->GetNextRecord( &*ReadPtr, KeyInt, Values ) ) return false;
+      if( !ReadPtr || !SortList || !SortList->GetNextRecord( &*ReadPtr, KeyInt, Values ) ) return false;
       // checking mapped values
       for( int D {}; D < FCurrentDim; D++ )
       {
-- 
2.43.0


From 5ef1fd21fa2045dcb30706f717c806e78fb30ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:57 +0000
Subject: [PATCH 10/20] fix: labels and texts are staged in local instead of
 shared static buffers

The function-local static buffers were shared by all GDX objects, so two
objects used from different threads could mix up their labels.
---
 src/gdlib/gmsstrm.cpp |  2 +-
 src/gxfile.cpp        | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 9423d61..5fae6ef 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -247,7 +247,7 @@ void TXStream::WriteString( const std::string_view s )
       *fstext << "WriteString@" << GetPosition() << "#" << ++cnt << ": " << s << "\n";
    }
 #endif
-   static sstring buf {};
+   sstring buf {};
    if( Paranoid ) ParWrite( RWType::rw_string );
    strConvCppToDelphi( s, buf.data() );
    Write( buf.data(), static_cast<uint32_t>( s.length() ) + 1 );
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 23e603f..b0d3807 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -482,7 +482,7 @@ int TGXFileObj::gdxDataWriteStr( const char **KeyStr, const double *Values )
          debugStream << " " << KeyStr[D] << ( D + 1 < FCurrentDim ? "," : "" ) << "\n";
    }
    // Could actually be GLOBAL_UEL_IDENT_SIZE but is ShortString in Delphi
-   static sstring SVstorage;
+   sstring SVstorage;
    for( int D {}; D < FCurrentDim; D++ )
    {
       int SVlen;
@@ -1520,8 +1520,8 @@ void TGXFileObj::AddToErrorListDomErrs( const std::array<int, GLOBAL_MAX_INDEX_D
    else if( ErrorList->GetCount() >= 11 )
       return;// NOTE: Not covered by unit tests yet.
 
-   static std::array<int, GLOBAL_MAX_INDEX_DIM> keys {};
-   static std::array<double, GMS_VAL_MAX> vals {};
+   std::array<int, GLOBAL_MAX_INDEX_DIM> keys {};
+   std::array<double, GMS_VAL_MAX> vals {};
 
    for( int D {}; D < FCurrentDim; D++ )
    {
@@ -2148,7 +2148,7 @@ int TGXFileObj::gdxAddSetText( const char *Txt, int &TxtNr )
       TxtNr = 0;
       return false;
    }
-   static sstring s;
+   sstring s;
    assignPCharToBuf( Txt, s.data(), GMS_SSSIZE );
    const int slen { MakeGoodExplText( s.data() ) };
    TxtNr = SetTextList->Add( s.data(), slen );
@@ -2609,7 +2609,7 @@ int TGXFileObj::gdxUELRegisterRaw( const char *Uel )
    if( ( TraceLevel >= TraceLevels::trl_all || fmode != f_raw_elem ) && !CheckMode( "UELRegisterRaw"s, f_raw_elem ) )
       return false;// NOTE: Not covered by unit tests yet.
 
-   static sstring svStorage;
+   sstring svStorage;
    int svLen;
    const char *SV { trimRight( Uel, svStorage.data(), svLen ) };
    if( ErrorCondition( GoodUELString( SV, svLen ), ERR_BADUELSTR ) ) return false;
@@ -2629,7 +2629,7 @@ int TGXFileObj::gdxUELRegisterStr( const char *Uel, int &UelNr )
 {
    if( ( TraceLevel >= TraceLevels::trl_all || fmode != f_str_elem ) && !CheckMode( "UELRegisterStr"s, f_str_elem ) )
       return false; // not covered by unit test
-   static sstring SVstorage;
+   sstring SVstorage;
    int svlen;
    const char *SV { trimRight( Uel, SVstorage.data(), svlen ) };
    if( ErrorCondition( GoodUELString( SV, svlen ), ERR_BADUELSTR ) )
@@ -2773,7 +2773,7 @@ int TGXFileObj::gdxUELRegisterMapStart()
 int TGXFileObj::gdxUELRegisterMap( int UMap, const char *Uel )
 {
    int svLen;
-   static sstring svStorage;
+   sstring svStorage;
    const char *SV { trimRight( Uel, svStorage.data(), svLen ) };
    if( TraceLevel >= TraceLevels::trl_all || fmode != f_map_elem )
    {
@@ -3580,7 +3580,7 @@ int TGXFileObj::gdxUMFindUEL( const char *Uel, int &UelNr, int &UelMap )
       UelNr = -1;
       return false;
    }
-   static sstring trimmedUelStorage;
+   sstring trimmedUelStorage;
    int trimmedUelLen;
    UelNr = UELTable->IndexOf( trimRight( Uel, trimmedUelStorage.data(), trimmedUelLen ) );
    if( UelNr < 0 ) return false;
-- 
2.43.0


From 13354fa1de71cb26b0051c64510bb037020d8442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:56 +0000
Subject: [PATCH 11/20] fix: trace output of different threads is kept apart

The stream collecting trace output was one unsynchronised global; it is now
one per thread.
---
 src/gdlib/utils.cpp | 2 +-
 src/gdlib/utils.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index 602c8e7..d101e51 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -48,7 +48,7 @@ using namespace std::literals::string_literals;
 // Implementation
 // ==============================================================================================================
 #if defined(NDEBUG) && !defined(__IN_CPPMEX__)
-std::stringstream debugStream;
+thread_local std::stringstream debugStream;
 #endif
 
 namespace utils
diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 25e0508..76b26a4 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -58,7 +58,7 @@
 #if !defined(NDEBUG) || defined(__IN_CPPMEX__)
 #define debugStream std::cout
 #else
-extern std::stringstream debugStream;
+extern thread_local std::stringstream debugStream;
 #endif
 
 namespace utils
-- 
2.43.0


From 0dae19abf002e9781d82b43ee0f232465d13f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:02 +0000
Subject: [PATCH 12/20] fix: trimming an overlong label does not overrun the
 staging buffer

All callers pass a buffer of GMS_SSSIZE characters; a longer label followed by
a blank was copied whole.
---
 src/gdlib/utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gdlib/utils.cpp b/src/gdlib/utils.cpp
index d101e51..9bdccc4 100644
--- a/src/gdlib/utils.cpp
+++ b/src/gdlib/utils.cpp
@@ -176,6 +176,7 @@ const char *trimRight( const char *s,
       if( static_cast<unsigned char>( s[i] ) > 32 )
          slen = i;
    if( ++slen == i ) return s;
+   slen = std::min( slen, 255 );// storage is a short string
    std::memcpy( storage, s, slen );
    storage[slen] = '\0';
    return storage;
-- 
2.43.0


From d32c066fec427ec0f4ce47fe8bc7adad486cea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:07 +0000
Subject: [PATCH 13/20] fix: strings longer than 255 characters are cut when
 written to a stream

WriteString converted such a string into an error message of its own but then
wrote as many bytes as the original had, from beyond the conversion buffer,
which also made the file unreadable (e.g. with a long producer string).
---
 src/gdlib/gmsstrm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 5fae6ef..ff35dea 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -249,8 +249,9 @@ void TXStream::WriteString( const std::string_view s )
 #endif
    sstring buf {};
    if( Paranoid ) ParWrite( RWType::rw_string );
-   strConvCppToDelphi( s, buf.data() );
-   Write( buf.data(), static_cast<uint32_t>( s.length() ) + 1 );
+   const auto shortened = s.substr( 0, 255 );
+   strConvCppToDelphi( shortened, buf.data() );
+   Write( buf.data(), static_cast<uint32_t>( shortened.length() ) + 1 );
 }
 
 void TXStream::WriteDouble( double x )
-- 
2.43.0


From c8b9e01c726ab15258a6904752e3ecc1d8b6c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:52 +0000
Subject: [PATCH 14/20] fix: a user number that is negative or taken by another
 element is rejected

gdxUELRegisterMap is documented to fail when different elements are given the
same user number, but the later registration silently took the number over.
A negative number was used as a subscript of the number-to-element table.
---
 src/gxfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index b0d3807..9ddebc4 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -3793,6 +3793,8 @@ int TUELTable::AddUsrNew( const char *s, size_t slen )
 
 int TUELTable::AddUsrIndxNew( const char *s, size_t slen, int UelNr )
 {
+   if( UelNr < 0 ) return -1;
+   if( const int owner { UsrUel2Ent->GetMapping( UelNr ) }; owner >= 0 && owner != IndexOf( s ) ) return -1;
    const int EN { AddObject( s, slen, -1 ) };
    int res { *GetObject( EN ) };
    if( res < 0 )
-- 
2.43.0


From ef02bd30c24f88ba81dbab76adfd8b7616388e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:19 +0000
Subject: [PATCH 15/20] fix: an acronym mapped to not-available on reading uses
 the reading values

With gdxMapAcronymsToNaNSet the value delivered was the not-available value of
the map used for writing, not the one set with gdxSetReadSpecialValues, so one
and the same read returned two different numbers for not-available.
---
 src/gxfile.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 9ddebc4..0ce6c12 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1472,7 +1472,7 @@ double TGXFileObj::AcronymRemap( double V )
 {
    auto GetAsAcronym = [&]( double v ) {
       if(MapAcrToNaN)
-         return intlValueMapDbl[GMS_SVIDX_NA];
+         return readIntlValueMapDbl[GMS_SVIDX_NA];
 
       const int orgIndx { ( utils::round<int>( v / Zvalacr ) ) };
       int newIndx {};
@@ -1508,10 +1508,10 @@ double TGXFileObj::AcronymRemap( double V )
    if( V < Zvalacr )
       return V;// NOTE: Not covered by unit tests yet.
    if( V == 0.0 ) return 0.0;
-   if( std::isnan( V ) ) return intlValueMapDbl[vm_valna];
-   if( std::isinf( V ) ) return V < 0.0 ? intlValueMapDbl[vm_valmin] : intlValueMapDbl[vm_valpin];
+   if( std::isnan( V ) ) return readIntlValueMapDbl[vm_valna];
+   if( std::isinf( V ) ) return V < 0.0 ? readIntlValueMapDbl[vm_valmin] : readIntlValueMapDbl[vm_valpin];
    if( std::isnormal( V ) ) return V < 0.0 ? V : GetAsAcronym( V );
-   return intlValueMapDbl[vm_valna];// NOTE: Not covered by unit tests yet.
+   return readIntlValueMapDbl[vm_valna];// NOTE: Not covered by unit tests yet.
 }
 
 void TGXFileObj::AddToErrorListDomErrs( const std::array<int, GLOBAL_MAX_INDEX_DIM> &AElements, const double *AVals )
-- 
2.43.0


From 4cd1f3bf4b67cfdab7d041befb2e34f4f1495078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:19 +0000
Subject: [PATCH 16/20] fix: a block length in a compressed file is checked
 against the buffers

The length of a compressed block is taken from the file. It can be as large as
65535, but the buffer it is read into holds 32768 bytes and the one for
compressed data 39342, so a damaged file overran them. The result of the
decompression was ignored as well: the bytes of the previous block were taken
for new ones. Both now count as an integrity failure of the stream.
---
 src/gdlib/gmsstrm.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index ff35dea..92f2650 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -608,12 +608,21 @@ bool TBufferedFileStream::FillBuffer()
       else
       {
          const auto WLen = ui16( ( CBufPtr->cxHeader.cxB1 << 8 ) + CBufPtr->cxHeader.cxB2 );
-         if( !CBufPtr->cxHeader.cxTyp ) NrLoaded = TXFileStream::Read( BufPtr.data(), WLen );
+         if( WLen > ( CBufPtr->cxHeader.cxTyp ? CBufSize : BufSize ) )
+         {// no such block was ever written
+            NrLoaded = 0;
+            SetLastIOResult( -100001 );// ERR_FILEERROR of gxfile
+         }
+         else if( !CBufPtr->cxHeader.cxTyp ) NrLoaded = TXFileStream::Read( BufPtr.data(), WLen );
          else
          {
             TXFileStream::Read( &CBufPtr->cxData, WLen );
             unsigned long XLen = BufSize;// we need a var parameter
-            uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen );
+            if( uncompress( BufPtr.data(), &XLen, &CBufPtr->cxData, WLen ) )
+            {
+               XLen = 0;
+               SetLastIOResult( -100001 );
+            }
             NrLoaded = ui32(XLen);
          }
       }
-- 
2.43.0


From a87e39a361a42211af39dc6389ade5480ac537d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:16 +0000
Subject: [PATCH 17/20] fix: a short write counts as an I/O failure

write() may store fewer bytes than it was given (disk nearly full); the
missing bytes were dropped without a recorded error.
---
 src/gdlib/gmsstrm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 92f2650..564c329 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -576,6 +576,7 @@ uint32_t TXFileStream::Write( const void *Buffer, uint32_t Count )
       ApplyPassWord( PR, PW.data(), static_cast<int>( Count ), PhysPosition );
       SetLastIOResult( p3FileWrite( FS, PW.data(), Count, res ) );
    }
+   if( res < Count ) SetLastIOResult( -100001 );// ERR_FILEERROR of gxfile
    PhysPosition += res;
    return res;
 }
-- 
2.43.0


From 278d0af6775ff7e27b9a85f411b8d1b05eb13a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:36 +0000
Subject: [PATCH 18/20] fix: gdxClose returns the I/O failures of the session

The recorded result was taken before the last buffer was written and the file
closed, both done by the destructor, and then replaced by the result of the
optional conversion, which is zero when there is nothing to convert.
---
 src/gdlib/gmsstrm.cpp | 10 ++++++++--
 src/gdlib/gmsstrm.hpp |  1 +
 src/gxfile.cpp        | 10 ++++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/gdlib/gmsstrm.cpp b/src/gdlib/gmsstrm.cpp
index 564c329..b99a2b8 100644
--- a/src/gdlib/gmsstrm.cpp
+++ b/src/gdlib/gmsstrm.cpp
@@ -532,8 +532,14 @@ TXFileStream::TXFileStream( std::string AFileName, const FileAccessMode AMode )
 
 TXFileStream::~TXFileStream()
 {
-   if( FileIsOpen )
-      SetLastIOResult( p3FileClose(FS) );
+   CloseFile();
+}
+
+void TXFileStream::CloseFile()
+{
+   if( !FileIsOpen ) return;
+   FileIsOpen = false;
+   SetLastIOResult( p3FileClose(FS) );
 }
 
 void TXFileStream::ApplyPassWord( const char *PR, char *PW, int Len, int64_t Offs ) const
diff --git a/src/gdlib/gmsstrm.hpp b/src/gdlib/gmsstrm.hpp
index 0f547d1..a21e844 100644
--- a/src/gdlib/gmsstrm.hpp
+++ b/src/gdlib/gmsstrm.hpp
@@ -219,6 +219,7 @@ public:
    uint32_t Write( const void *Buffer, uint32_t Count ) override;
 
    void SetLastIOResult( int V );
+   void CloseFile();
    int GetLastIOResult();
 
    void SetPassWord( const std::string &s );
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 0ce6c12..5f410f5 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -630,7 +630,13 @@ int TGXFileObj::gdxClose()
          FFile->WriteInt64( offset );
    }
 
-   int res { FFile ? FFile->GetLastIOResult() : 1 };
+   int res { 1 };
+   if( FFile )
+   {
+      FFile->FlushBuffer();
+      FFile->CloseFile();
+      res = FFile->GetLastIOResult();
+   }
 
    // Many free operations. Some not necessary anymore due to RAII pattern (out of scope -> destroy)
    if( NameList )
@@ -658,7 +664,7 @@ int TGXFileObj::gdxClose()
    fmode = f_not_open;
    fstatus = stat_notopen;
 
-   if( AutoConvert && !fnConv.empty() )
+   if( !res && AutoConvert && !fnConv.empty() )
    {
       res = ConvertGDXFile( fnConv, CompressOut ? "C" : "U" );
       if( res > 0 ) res += 100;
-- 
2.43.0


From f2c646d1cc5ca72b16493c077c514382673e59d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:02 +0000
Subject: [PATCH 19/20] fix: gdxDataReadMap delivers the keys that did not
 change

When records are mapped one by one, the keys before the first changed
dimension were expected to be in the caller's array from the call before; a
caller passing another array got whatever it held, and a wrong DimFrst.
---
 src/gxfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 5f410f5..74aabbd 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -2833,6 +2833,7 @@ int TGXFileObj::gdxDataReadMap( [[maybe_unused]] int RecNr, int *KeyInt, double
 
    bool AddNew {}, AddError {}, BadError {};
    int FIDim { FCurrentDim };
+   std::copy_n( PrevElem.begin(), FCurrentDim, KeyInt );
 
 again:
    if( !DoRead( Values, DimFrst ) ) return false;
-- 
2.43.0


From 1970d1a38c11759adc387ba8c8c54bcb0096de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:12 +0000
Subject: [PATCH 20/20] fix: output strings are cut to the documented size of
 the caller's buffer

assignStrToBuf copied strings of exactly the buffer size (one byte too many) and left
longer ones uncopied; gdxDataReadStr copied labels without any limit and several
operations passed 256 for buffers documented to hold 64 characters.
---
 src/gdlib/utils.hpp |  9 +++------
 src/gxfile.cpp      | 20 ++++++++------------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/gdlib/utils.hpp b/src/gdlib/utils.hpp
index 76b26a4..eb320a4 100644
--- a/src/gdlib/utils.hpp
+++ b/src/gdlib/utils.hpp
@@ -695,12 +695,9 @@ int strCompare( const char *S1,
 
 inline void assignStrToBuf( const std::string &s, char *buf, const int outBufSize = 256 )
 {
-   if( static_cast<int>( s.length() ) > outBufSize ) return;
-#if defined( _WIN32 )
-   std::memcpy( buf, s.c_str(), s.length() + 1 );
-#else
-   std::strcpy( buf, s.c_str() );
-#endif
+   const size_t len { std::min( s.length(), static_cast<size_t>( outBufSize - 1 ) ) };// truncate when exceeding
+   std::memcpy( buf, s.data(), len );
+   buf[len] = '\0';
 }
 
 inline void assignPCharToBuf( const char *s, const size_t slen, char *buf, const size_t outBufSize = 256 )
diff --git a/src/gxfile.cpp b/src/gxfile.cpp
index 74aabbd..35b7f9c 100644
--- a/src/gxfile.cpp
+++ b/src/gxfile.cpp
@@ -1769,11 +1769,7 @@ int TGXFileObj::gdxDataReadStr( char **KeyStr, double *Values, int &DimFrst )
          int LED { LastElem[D] };
          if( LED >= 1 && LED <= ( UELTable ? UELTable->size() : 0 ) )
          {
-#if defined( _WIN32 )
             assignPCharToBuf( ( *UELTable )[LED], KeyStr[D], GMS_UEL_IDENT_SIZE );
-#else
-            std::strcpy( KeyStr[D], ( *UELTable )[LED] );
-#endif
          }
          else
             std::snprintf( KeyStr[D], GMS_UEL_IDENT_SIZE, "%s%d", BADUEL_PREFIX.c_str(), LED );// NOTE: Not covered by unit tests yet.
@@ -1834,7 +1830,7 @@ int TGXFileObj::gdxSymbolInfo( int SyNr, char *SyId, int &Dim, int &Typ )
    if( NameList && !NameList->empty() && SyNr > 0 && SyNr <= NameList->size() )
    {
       const auto *sym = *NameList->GetObject( SyNr );
-      assignPCharToBuf( NameList->GetString( SyNr ), SyId, GMS_SSSIZE );
+      assignPCharToBuf( NameList->GetString( SyNr ), SyId, GMS_UEL_IDENT_SIZE );
       Dim = sym->SDim;
       Typ = sym->SDataType;
       return true;
@@ -2657,11 +2653,11 @@ int TGXFileObj::gdxUMUelGet( int UelNr, char *Uel, int &UelMap )
 {
    if( UELTable && UelNr >= 1 && UelNr <= UELTable->size() )
    {
-      assignPCharToBuf( ( *UELTable )[UelNr], Uel );
+      assignPCharToBuf( ( *UELTable )[UelNr], Uel, GMS_UEL_IDENT_SIZE );
       UelMap = UELTable->GetUserMap( UelNr );
       return true;
    }
-   assignStrToBuf( BADUEL_PREFIX + rtl::sysutils_p3::IntToStr( UelNr ), Uel );
+   assignStrToBuf( BADUEL_PREFIX + rtl::sysutils_p3::IntToStr( UelNr ), Uel, GMS_UEL_IDENT_SIZE );
    UelMap = -1;
    return false;
 }
@@ -2719,9 +2715,9 @@ int TGXFileObj::gdxGetUEL( int uelNr, char *Uel ) const
       return false;
    }
    const int EN = UELTable->UsrUel2Ent->GetMapping( uelNr );
-   if( EN >= 1 ) assignPCharToBuf( ( *UELTable )[EN], Uel );
+   if( EN >= 1 ) assignPCharToBuf( ( *UELTable )[EN], Uel, GMS_UEL_IDENT_SIZE );
    else
-      assignStrToBuf( BADUEL_PREFIX + rtl::sysutils_p3::IntToStr( uelNr ), Uel );
+      assignStrToBuf( BADUEL_PREFIX + rtl::sysutils_p3::IntToStr( uelNr ), Uel, GMS_UEL_IDENT_SIZE );
    return EN >= 1;
 }
 
@@ -3262,7 +3258,7 @@ int TGXFileObj::gdxAcronymName( double V, char *AName )
    else
    {
       const int N { AcronymList ? AcronymList->FindEntry( Indx ) : -1 };
-      assignStrToBuf( N < 0 ? "UnknownAcronym"s + rtl::sysutils_p3::IntToStr( Indx ) : ( *AcronymList )[N].AcrName, AName, GMS_SSSIZE );
+      assignStrToBuf( N < 0 ? "UnknownAcronym"s + rtl::sysutils_p3::IntToStr( Indx ) : ( *AcronymList )[N].AcrName, AName, GMS_UEL_IDENT_SIZE );
       return true;
    }
    return false;
@@ -3397,7 +3393,7 @@ int TGXFileObj::gdxDataSliceUELS( const int *SliceKeyInt, char **KeyStr )
    for( int D {}; D < FCurrentDim; D++ )
    {
       if( !SliceElems[D].empty() )
-         assignStrToBuf( SliceElems[D], KeyStr[D] );
+         assignStrToBuf( SliceElems[D], KeyStr[D], GMS_UEL_IDENT_SIZE );
       else
       {
          if( const int N = SliceRevMap[D].GetMapping( SliceKeyInt[HisDim++] );
@@ -3407,7 +3403,7 @@ int TGXFileObj::gdxDataSliceUELS( const int *SliceKeyInt, char **KeyStr )
             KeyStr[D][1] = '\0';
          }
          else
-            assignPCharToBuf( ( *UELTable )[N], KeyStr[D] );
+            assignPCharToBuf( ( *UELTable )[N], KeyStr[D], GMS_UEL_IDENT_SIZE );
       }
    }
    return true;
-- 
2.43.0

