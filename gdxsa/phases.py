"""The documented state diagrams of a GDX object (doc/ and the comments in gxfile.h): which phases each operation belongs to
and which phase a successful call ends in.  '=' means the phase does not change."""
NOT = ['f_not_open']
RD = ['fr_init', 'fr_str_data', 'fr_raw_data', 'fr_map_data', 'fr_mapr_data']     # a read in progress is ended implicitly
WDOM = ['fw_dom_str', 'fw_dom_raw', 'fw_dom_map']
WDAT = ['fw_str_data', 'fw_raw_data', 'fw_map_data']
READMODES = RD + ['fr_slice', 'fr_filter']
WRITEMODES = ['fw_init'] + WDOM + WDAT
ELEM = ['f_raw_elem', 'f_str_elem', 'f_map_elem']

# operation -> (phases in which it is carried out, phases a success may end in)
SPEC = {}
def op(names, phases, post, must=None):
    for n in names.split(): SPEC[n] = (phases, post, must if must is not None else phases)
op('gdxOpenRead gdxOpenReadEx', NOT, ['fr_init'])
op('gdxOpenWrite gdxOpenWriteEx gdxOpenAppend', NOT, ['fw_init'])
op('gdxDataWriteRawStart gdxDataWriteRawStartKeyBounds', ['fw_init'], ['fw_dom_raw'])
op('gdxDataWriteMapStart', ['fw_init'], ['fw_dom_map'])
op('gdxDataWriteStrStart', ['fw_init'], ['fw_dom_str'])
op('gdxDataWriteRaw', ['fw_dom_raw', 'fw_raw_data'], ['fw_raw_data'])
op('gdxDataWriteMap', ['fw_dom_map', 'fw_map_data'], ['fw_map_data'])
op('gdxDataWriteStr', ['fw_dom_str', 'fw_str_data'], ['fw_str_data'])
op('gdxDataWriteDone', WDOM + WDAT, ['fw_init'])
op('gdxSymbolSetDomain', WDOM, {'fw_dom_raw': ['fw_raw_data'], 'fw_dom_map': ['fw_map_data'], 'fw_dom_str': ['fw_str_data']})
op('gdxAddAlias gdxSymbolAddComment', WRITEMODES, '=')
op('gdxDataReadRawStart', RD, ['fr_raw_data'])
op('gdxDataReadStrStart', RD, ['fr_str_data'])
op('gdxDataReadMapStart gdxDataReadFilteredStart', RD, ['fr_map_data', 'fr_mapr_data'])
op('gdxDataReadSliceStart', RD, ['fr_slice'])
op('gdxDataReadRaw', ['fr_raw_data'], '=')
op('gdxDataReadStr', ['fr_str_data'], '=')
op('gdxDataReadMap', ['fr_map_data', 'fr_mapr_data'], '=')
op('gdxDataReadDone', RD + ['fr_slice'], ['fr_init'])
op('gdxDataReadSlice gdxDataSliceUELS', ['fr_slice'], '=')
op('gdxDataReadRawFast gdxDataReadRawFastEx gdxDataReadRawFastFilt gdxGetDomainElements', RD, ['fr_init'])
op('gdxSymbIndxMaxLength', ['fr_init'], ['fr_init'])
op('gdxUELRegisterRawStart', ['fw_init'], ['f_raw_elem'])
op('gdxUELRegisterStrStart', ['fw_init', 'fr_init'], ['f_str_elem'])
op('gdxUELRegisterMapStart', ['fw_init', 'fr_init'], ['f_map_elem'])
op('gdxUELRegisterRaw', ['f_raw_elem'], '=')
op('gdxUELRegisterStr', ['f_str_elem'], '=')
op('gdxUELRegisterMap', ['f_map_elem'], '=')
op('gdxUELRegisterDone', ELEM, 'init')
op('gdxFilterRegisterStart', ['fr_init'], ['fr_filter'])
op('gdxFilterRegister', ['fr_filter'], '=')
op('gdxFilterRegisterDone', ['fr_filter'], ['fr_init'])
op('gdxFilterExists', RD, '=')
op('gdxDataErrorRecord gdxDataErrorRecordX', ['fr_init', 'fw_init', 'fr_map_data', 'fr_mapr_data', 'fw_raw_data', 'fw_map_data', 'fw_str_data'], '=',
   ['fr_init', 'fw_init', 'fr_map_data', 'fr_mapr_data', 'fw_raw_data'])

def status_of(mode, status):
    """which kind of session a phase belongs to: 0 closed, 1 reading, 2 writing, None both possible"""
    if mode == 'f_not_open': return 0
    if mode in READMODES: return 1
    if mode in WRITEMODES or mode == 'f_raw_elem': return 2
    return None
