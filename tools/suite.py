"""Witness programs for tiny::optional, their analysis and the comparison with the std::optional reference.

A *kind* is one optional type (payload class x storage strategy).  For each kind a translation unit with one small
witness function per public operation is generated twice: once with the optional of this library, once with
std::optional<T> of the same payload.  Both are lowered to LLVM IR by clang and analysed by absint.Engine from every
abstract entry state (each optional operand EMPTY or FULL).  The result is a decision table per witness: which user
operations are invoked on which objects in which order, what is returned/thrown, which optional ends up engaged and
which bytes it holds.  The table of the library has to equal the table of the reference.
"""
import os
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import absint
import llvmir

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TINY_REPO', '/repo')
CLANG = '/usr/bin/clang++'

# ----------------------------------------------------------------------------------------------------- payload types
FULLF = 'copy move ca ma argc argl argm xarg two three il dflt cmp hash swap asarg touch trans opq'
TYPES = {
    'PT': FULLF, 'PN': FULLF, 'PS': FULLF, 'PZ': FULLF.replace('hash ', ''), 'PI': FULLF.replace('hash ', ''), 'PJ': FULLF.replace('hash ', ''), 'PQ': FULLF,
    'MC': 'copy move ca ma argc argm dflt swap asarg opq', 'MA': 'copy move ca ma argc argm dflt swap asarg opq',
    'MS': 'copy move ca ma argc argm dflt swap asarg opq',
    'NS': 'copy move ca ma argc swap opq', 'NE': 'copy move ca ma argc swap opq',
    'MO': 'move ma argc argm asargm swap opq trans',
    'CO': 'copy move ca ma argc swap opq', 'IM': 'argc argm dflt opq trans', 'NA': 'copy move argc opq trans',
    'CR': 'copy move ca ma argc opq trans', 'HP': 'copy move ca ma argc argm dflt asargc swap cmp hash opq trans',
    'HM': 'copy move ca ma argc opq',
    'AN': 'copy move ca ma argc dflt opq',
    'AG': 'copy move ca ma swap opq trans', 'AH': 'move ma swap opq trans',
}
for t in ('BG', 'BN', 'OA', 'VI', 'EC', 'FI', 'DB', 'VD', 'T3'):
    TYPES[t] = 'copy move ca ma argc argm dflt asarg swap opq trans'
SEMI = 'copy move ca ma argc argl argm xarg two il dflt cmp hash swap asarg trans'
for t in ('U0', 'U1', 'U2', 'U3', 'U4'):
    TYPES[t] = SEMI
TYPES['U4'] = SEMI.replace(' il', '')     # libstdc++ makes an additional copy there
TYPES['TA'] = SEMI + ' opq'
SCAL = 'copy move ca ma val cmp hash swap dflt0 trans triv'
for t in ('int', 'double', 'bool', 'float', 'int*', 'FP', 'uchar', 'EN', 'EM', 'EO', 'ES', 'longdouble', 'uint', 'short',
          'llong', 'schar', 'char', 'ullong', 'wchar'):
    TYPES[t] = SCAL
for t in ('TC', 'TP', 'UN', 'EE', 'BIG', 'C3', 'TSW'):
    TYPES[t] = 'copy move ca ma val swap trans triv dflt0'
for t in ('mptr', 'mfptr'):
    TYPES[t] = 'copy move ca ma val swap trans triv eqonly'
TYPES['byte'] = 'copy move ca ma val swap trans triv cmp'
TYPES['nul'] = 'copy move ca ma val swap trans triv eqonly'
TYPES['nest'] = 'copy move ca ma val swap trans'
TYPES['rw'] = 'copy move ca ma val swap trans triv'
TYPES['TS'] = 'copy move ca ma val swap trans triv eqonly dflt0'


class Kind:
    def __init__(self, name, O, T, base, H=None, HS=None, flag=None, std=17, fm=False, drop='', add='', main=False,
                 conv=None, macro_ok=True, resv=None, tags='', cls=None):
        self.name = name
        self.O = O
        self.T = T
        self.base = base
        feats = set((TYPES[base] + ' ' + add).split()) - set(drop.split())
        if 'const' in T.split():
            feats -= {'ca', 'ma', 'swap', 'asarg', 'asargm', 'touch', 'dflt0'}
        self.feats = feats
        self.H = H or O
        self.HS = HS or 'std::optional<%s>' % T
        self.flag = flag          # 'expr for offset', 'expr for size' of the flag inside the payload
        self.std = std
        self.fm = fm
        self.main = main          # O is an instance of the class template tiny::optional
        self.conv = conv          # (type convertible to T) for scalars
        self.macro_ok = macro_ok
        self.tags = set(tags.split())
        self.cls = 'w::' + (cls or base)   # the class whose lifetime is tracked

    @property
    def opq(self):
        return 'opq' in self.feats


def mem(T, m):
    return ('offsetof(%s, %s)' % (T, m), 'sizeof(%s::%s)' % (T, m))


WHOLE = ('0', 'sizeof(T)')
KINDS = [
    # separate flag
    Kind('sep', 'tiny::optional<PT>', 'PT', 'PT', H='tiny::optional<PQ>', HS='std::optional<PQ>', main=True),
    Kind('sepn', 'tiny::optional<PN>', 'PN', 'PN', main=True),
    # registered manipulator
    Kind('reg', 'tiny::optional<PS>', 'PS', 'PS', main=True, fm=True),
    Kind('regn', 'tiny::optional_aip<PZ>', 'PZ', 'PZ', main=True, fm=True),
    # user supplied manipulator
    Kind('inp', 'tiny::optional_inplace<PT, FM_PT>', 'PT', 'PT', H='tiny::optional<PT>', HS='std::optional<PT>', fm=True),
    Kind('inpn', 'tiny::optional_inplace<PN, FM_PN>', 'PN', 'PN', H='tiny::optional<PN, &PN::d>', fm=True),
    # flag in a member with unused bits
    Kind('memd', 'tiny::optional<PT, &PT::d>', 'PT', 'PT', H='tiny::optional_inplace<PQ, FM_PQ>', HS='std::optional<PQ>',
         flag=mem('PT', 'd'), main=True),
    Kind('memf', 'tiny::optional<PT, &PT::f>', 'PT', 'PT', flag=mem('PT', 'f'), main=True),
    Kind('memb', 'tiny::optional<PN, &PN::b>', 'PN', 'PN', flag=mem('PN', 'b'), main=True),
    Kind('memp', 'tiny::optional<PT, &PT::p>', 'PT', 'PT', flag=mem('PT', 'p'), main=True),
    Kind('memfp', 'tiny::optional<PT, &PT::fp>', 'PT', 'PT', flag=mem('PT', 'fp'), main=True),
    # flag in a member, sentinel given
    Kind('memi', 'tiny::optional<PT, &PT::i, 43>', 'PT', 'PT', flag=mem('PT', 'i'), main=True),
    Kind('memu', 'tiny::optional<PT, &PT::u, 255>', 'PT', 'PT', flag=mem('PT', 'u'), main=True),
    Kind('memvt', 'tiny::optional_sentinel_via_type<PT, SentI, &PT::i>', 'PT', 'PT', flag=mem('PT', 'i')),
    # flag in a member whose class has a registered manipulator
    Kind('memc', 'tiny::optional<PT, &PT::fl>', 'PT', 'PT', fm=True, main=True),
    # payload classes with partial interfaces
    Kind('mc', 'tiny::optional<MC>', 'MC', 'MC', main=True), Kind('ma', 'tiny::optional<MA>', 'MA', 'MA', main=True),
    Kind('ms', 'tiny::optional<MS>', 'MS', 'MS', main=True),
    Kind('ns', 'tiny::optional<NS>', 'NS', 'NS', main=True), Kind('ne', 'tiny::optional<NE>', 'NE', 'NE', main=True),
    Kind('mo', 'tiny::optional<MO>', 'MO', 'MO', main=True), Kind('co', 'tiny::optional<CO>', 'CO', 'CO', main=True),
    Kind('im', 'tiny::optional<IM>', 'IM', 'IM', main=True), Kind('na', 'tiny::optional<NA>', 'NA', 'NA', main=True),
    Kind('cr', 'tiny::optional<CR>', 'CR', 'CR', main=True),
    Kind('mcf', 'tiny::optional_inplace<MC, FM_MC>', 'MC', 'MC', fm=True),
    Kind('maf', 'tiny::optional_inplace<MA, FM_MA>', 'MA', 'MA', fm=True),
    Kind('msf', 'tiny::optional_inplace<MS, FM_MS>', 'MS', 'MS', fm=True),
    Kind('nsf', 'tiny::optional_inplace<NS, FM_NS>', 'NS', 'NS', fm=True),
    Kind('mof', 'tiny::optional_inplace<MO, FM_MO>', 'MO', 'MO', fm=True),
    Kind('cof', 'tiny::optional_inplace<CO, FM_CO>', 'CO', 'CO', fm=True),
    Kind('imf', 'tiny::optional_inplace<IM, FM_IM>', 'IM', 'IM', fm=True),
    Kind('naf', 'tiny::optional_inplace<NA, FM_NA>', 'NA', 'NA', fm=True),
    Kind('crf', 'tiny::optional_inplace<CR, FM_CR>', 'CR', 'CR', fm=True),
    Kind('mod', 'tiny::optional<MO, &MO::d>', 'MO', 'MO', flag=mem('MO', 'd'), main=True),
    Kind('imi', 'tiny::optional<IM, &IM::i, -1>', 'IM', 'IM', flag=mem('IM', 'i'), main=True),
    Kind('nap', 'tiny::optional<NA, &NA::p>', 'NA', 'NA', flag=mem('NA', 'p'), main=True),
    # unusual sizes and traits
    Kind('bg', 'tiny::optional<BG>', 'BG', 'BG', main=True), Kind('bgf', 'tiny::optional_inplace<BG, FM_BG>', 'BG', 'BG', fm=True),
    Kind('bgd', 'tiny::optional<BG, &BG::d>', 'BG', 'BG', flag=mem('BG', 'd'), main=True),
    Kind('oa', 'tiny::optional<OA>', 'OA', 'OA', main=True), Kind('oaf', 'tiny::optional_inplace<OA, FM_OA>', 'OA', 'OA', fm=True),
    Kind('oai', 'tiny::optional<OA, &OA::i, 6>', 'OA', 'OA', flag=mem('OA', 'i'), main=True),
    Kind('vi', 'tiny::optional<VI>', 'VI', 'VI', main=True), Kind('vif', 'tiny::optional_inplace<VI, FM_VI>', 'VI', 'VI', fm=True),
    Kind('vip', 'tiny::optional<VI, &VI::p>', 'VI', 'VI', flag=mem('VI', 'p'), main=True),
    Kind('bn', 'tiny::optional<BN>', 'BN', 'BN', main=True), Kind('bnf', 'tiny::optional_inplace<BN, FM_BN>', 'BN', 'BN', fm=True),
    Kind('bnd', 'tiny::optional<BN, &BN::d>', 'BN', 'BN', flag=mem('BN', 'd'), main=True),
    Kind('ag', 'tiny::optional<AG>', 'AG', 'AG', main=True, cls='PT'), Kind('agi', 'tiny::optional<AG, &AG::x, 6>', 'AG', 'AG', flag=mem('AG', 'x'), main=True, cls='PT'),
    Kind('agb', 'tiny::optional<AG, &AG::b>', 'AG', 'AG', flag=mem('AG', 'b'), main=True, cls='PT'),
    Kind('ah', 'tiny::optional<AH>', 'AH', 'AH', main=True, cls='MO', std=20), Kind('ahd', 'tiny::optional<AH, &AH::d>', 'AH', 'AH', flag=mem('AH', 'd'), main=True, cls='MO', std=20),
    Kind('ec', 'tiny::optional<EC>', 'EC', 'EC', main=True), Kind('ecf', 'tiny::optional_inplace<EC, FM_EC>', 'EC', 'EC', fm=True),
    Kind('fi', 'tiny::optional<FI>', 'FI', 'FI', main=True), Kind('fib', 'tiny::optional<FI, &FI::b>', 'FI', 'FI', flag=mem('FI', 'b'), main=True),
    Kind('db', 'tiny::optional<DB>', 'DB', 'DB', main=True), Kind('dbf', 'tiny::optional<DB, &DB::f>', 'DB', 'DB', flag=mem('DB', 'f'), main=True),
    # const payloads
    Kind('csep', 'tiny::optional<PT const>', 'PT const', 'PT', main=True),
    Kind('creg', 'tiny::optional<PS const>', 'PS const', 'PS', main=True, tags='cfm'),
    Kind('cint', 'tiny::optional<int const, 5>', 'int const', 'int', flag=WHOLE, main=True),
    Kind('cdbl', 'tiny::optional<double const>', 'double const', 'double', flag=WHOLE, main=True),
    # unused bits
    Kind('dbl', 'tiny::optional<double>', 'double', 'double', H='tiny::optional<float>', HS='std::optional<float>',
         flag=WHOLE, main=True, conv='float'),
    Kind('flt', 'tiny::optional<float>', 'float', 'float', H='tiny::optional<double>', HS='std::optional<double>',
         flag=WHOLE, main=True, conv='double'),
    Kind('boo', 'tiny::optional<bool>', 'bool', 'bool', flag=WHOLE, main=True),
    Kind('ptr', 'tiny::optional<int *>', 'int *', 'int*', flag=WHOLE, main=True),
    Kind('fpt', 'tiny::optional<FP>', 'FP', 'FP', flag=WHOLE, main=True),
    Kind('enm', 'tiny::optional<EM>', 'EM', 'EM', flag=WHOLE, main=True),
    # sentinels
    Kind('int', 'tiny::optional<int, -1>', 'int', 'int', H='tiny::optional<long long>', HS='std::optional<long long>',
         flag=WHOLE, main=True, conv='short'),
    Kind('uch', 'tiny::optional<unsigned char, 255>', 'unsigned char', 'uchar', flag=WHOLE, main=True),
    Kind('enu', 'tiny::optional<EN, EN::inv>', 'EN', 'EN', flag=WHOLE, main=True),
    Kind('ens', 'tiny::optional<ES>', 'ES', 'ES', main=True), Kind('enss', 'tiny::optional<ES, ES::inv>', 'ES', 'ES', flag=WHOLE, main=True),
    Kind('tsw', 'tiny::optional<TSW>', 'TSW', 'TSW', main=True), Kind('tswd', 'tiny::optional<TSW, &TSW::d>', 'TSW', 'TSW', flag=mem('TSW', 'd'), main=True),
    Kind('eno', 'tiny::optional<EO, e_inv>', 'EO', 'EO', flag=WHOLE, main=True, drop='dflt0'),
    Kind('aip', 'tiny::optional_aip<unsigned>', 'unsigned', 'uint', H='tiny::optional<unsigned short>',
         HS='std::optional<unsigned short>', flag=WHOLE, main=True, conv='unsigned short'),
    Kind('bsen', 'tiny::optional<bool, true>', 'bool', 'bool', flag=WHOLE, main=True),
    Kind('dvt', 'tiny::optional_sentinel_via_type<double, SentD>', 'double', 'double', flag=WHOLE),
    Kind('fvt', 'tiny::optional_sentinel_via_type<float, SentF>', 'float', 'float', flag=WHOLE),
    Kind('ivt', 'tiny::optional_sentinel_via_type<int, SentI>', 'int', 'int', flag=WHOLE, conv='short'),
    Kind('pvt', 'tiny::optional_sentinel_via_type<int *, SentP>', 'int *', 'int*', flag=WHOLE, drop='dflt0'),
    Kind('tsvt', 'tiny::optional_sentinel_via_type<TS, SentTS>', 'TS', 'TS', flag=WHOLE),
    Kind('tsc', 'tiny::optional<TS, TS{7, -9}>', 'TS', 'TS', flag=WHOLE, std=20, main=True),
    # separate flag, trivial payloads
    Kind('isep', 'tiny::optional<int>', 'int', 'int', H='tiny::optional<int, 7>', HS='std::optional<int>', main=True, conv='short'),
    Kind('lld', 'tiny::optional<long double>', 'long double', 'longdouble', main=True, conv='double'),
    Kind('tcs', 'tiny::optional<TC>', 'TC', 'TC', main=True),
    # trivial classes, member flags
    Kind('tcd', 'tiny::optional<TC, &TC::d>', 'TC', 'TC', flag=mem('TC', 'd'), main=True),
    Kind('tcb', 'tiny::optional<TC, &TC::b>', 'TC', 'TC', flag=mem('TC', 'b'), main=True),
    Kind('tci', 'tiny::optional<TC, &TC::i, -2>', 'TC', 'TC', flag=mem('TC', 'i'), main=True),
    Kind('tcvt', 'tiny::optional_sentinel_via_type<TC, SentD, &TC::d>', 'TC', 'TC', flag=mem('TC', 'd')),
    Kind('tps', 'tiny::optional<TP, &TP::s, -7>', 'TP', 'TP', flag=mem('TP', 's'), main=True),
    Kind('tpl', 'tiny::optional<TP, &TP::ull, 0xfedcba9876543210ull>', 'TP', 'TP', flag=mem('TP', 'ull'), main=True),
    Kind('tpp', 'tiny::optional<TP, &TP::p>', 'TP', 'TP', flag=mem('TP', 'p'), main=True),
    Kind('tpf', 'tiny::optional<TP, &TP::f>', 'TP', 'TP', flag=mem('TP', 'f'), main=True),
    # volatile
    Kind('vdbl', 'tiny::optional<double volatile>', 'double volatile', 'double', flag=WHOLE, main=True,
         drop='cmp hash swap trans ca ma copy move', tags='vol'),
    # the class behind the aliases, with each storage strategy (no sentinel given)
    Kind('sepvt', 'tiny::optional_sentinel_via_type<PT, tiny::UseDefaultType>', 'PT', 'PT'),
    Kind('isepvt', 'tiny::optional_sentinel_via_type<int, tiny::UseDefaultType>', 'int', 'int', conv='short'),
    Kind('regvt', 'tiny::optional_sentinel_via_type<PS, tiny::UseDefaultType>', 'PS', 'PS', fm=True),
    Kind('dblvt', 'tiny::optional_sentinel_via_type<double, tiny::UseDefaultType>', 'double', 'double', flag=WHOLE, conv='float'),
    Kind('memdvt', 'tiny::optional_sentinel_via_type<PT, tiny::UseDefaultType, &PT::d>', 'PT', 'PT', flag=mem('PT', 'd')),
    # some special members are trivial
    Kind('u0', 'tiny::optional<U0>', 'U0', 'U0', main=True), Kind('u0d', 'tiny::optional<U0, &U0::d>', 'U0', 'U0', flag=mem('U0', 'd'), main=True),
    Kind('u0i', 'tiny::optional<U0, &U0::i, 9>', 'U0', 'U0', flag=mem('U0', 'i'), main=True),
    Kind('u0f', 'tiny::optional_inplace<U0, FM_U0>', 'U0', 'U0', tags='ufm'),
    Kind('u1', 'tiny::optional<U1>', 'U1', 'U1', main=True), Kind('u1b', 'tiny::optional<U1, &U1::b>', 'U1', 'U1', flag=mem('U1', 'b'), main=True),
    Kind('u1f', 'tiny::optional_inplace<U1, FM_U1>', 'U1', 'U1', tags='ufm'),
    Kind('u2', 'tiny::optional<U2>', 'U2', 'U2', main=True), Kind('u2i', 'tiny::optional<U2, &U2::i, -9>', 'U2', 'U2', flag=mem('U2', 'i'), main=True),
    Kind('u3', 'tiny::optional<U3>', 'U3', 'U3', main=True), Kind('u3d', 'tiny::optional<U3, &U3::d>', 'U3', 'U3', flag=mem('U3', 'd'), main=True),
    Kind('u3f', 'tiny::optional_inplace<U3, FM_U3>', 'U3', 'U3', tags='ufm'),
    Kind('u4', 'tiny::optional<U4>', 'U4', 'U4', main=True), Kind('u4p', 'tiny::optional<U4, &U4::p>', 'U4', 'U4', flag=mem('U4', 'p'), main=True),
    Kind('ta', 'tiny::optional<TA>', 'TA', 'TA', main=True), Kind('tad', 'tiny::optional<TA, &TA::d>', 'TA', 'TA', flag=mem('TA', 'd'), main=True),
    Kind('taf', 'tiny::optional_inplace<TA, FM_TA>', 'TA', 'TA', fm=True),
    Kind('cu0', 'tiny::optional<U0 const>', 'U0 const', 'U0', main=True),
    # braces select another constructor
    Kind('pi', 'tiny::optional<PI>', 'PI', 'PI', main=True), Kind('pjd', 'tiny::optional<PJ, &PJ::d>', 'PJ', 'PJ', flag=mem('PJ', 'd'), main=True),
    # further scalars and trivial classes
    Kind('pnul', 'tiny::optional<int *, nullptr>', 'int *', 'int*', flag=WHOLE, main=True, drop='dflt0'),
    Kind('mpnul', 'tiny::optional<PT, &PT::p, nullptr>', 'PT', 'PT', flag=mem('PT', 'p'), main=True),
    Kind('chr', "tiny::optional<char, 'x'>", 'char', 'char', flag=WHOLE, main=True),
    Kind('ull', 'tiny::optional<unsigned long long, 0x8000000000000000ull>', 'unsigned long long', 'ullong', flag=WHOLE, main=True, H='tiny::optional<int>', HS='std::optional<int>', conv='int'),
    Kind('wch', "tiny::optional<wchar_t, L'y'>", 'wchar_t', 'wchar', flag=WHOLE, main=True),
    Kind('un', 'tiny::optional<UN>', 'UN', 'UN', main=True),
    Kind('ee', 'tiny::optional<EE>', 'EE', 'EE', main=True),
    Kind('big', 'tiny::optional<BT300>', 'BT300', 'BIG', main=True),
    Kind('bigi', 'tiny::optional<BT300, &BT300::i, 1>', 'BT300', 'BIG', flag=mem('BT300', 'i'), main=True),
    Kind('mptr', 'tiny::optional<MP>', 'MP', 'mptr', main=True), Kind('mfp', 'tiny::optional<MFP>', 'MFP', 'mfptr', main=True),
    Kind('mptrs', 'tiny::optional<PT, &PT::i, 0x7fffffff>', 'PT', 'PT', flag=mem('PT', 'i'), main=True),
    Kind('byt', 'tiny::optional<std::byte, std::byte{255}>', 'std::byte', 'byte', flag=WHOLE, main=True),
    Kind('rw', 'tiny::optional<std::reference_wrapper<int>>', 'std::reference_wrapper<int>', 'rw', main=True),
    Kind('sht', 'tiny::optional<short>', 'short', 'short', H='tiny::optional<unsigned>', HS='std::optional<unsigned>', main=True, conv='unsigned'), Kind('shts', 'tiny::optional<unsigned short, 0xfffe>', 'unsigned short', 'short', flag=WHOLE, main=True),
    Kind('nul', 'tiny::optional<std::nullptr_t>', 'std::nullptr_t', 'nul', main=True),
    Kind('c3', 'tiny::optional<C3>', 'C3', 'C3', main=True), Kind('t3', 'tiny::optional<T3>', 'T3', 'T3', main=True),
    Kind('vd', 'tiny::optional<VD>', 'VD', 'VD', main=True), Kind('vdd', 'tiny::optional<VD, &VD::d>', 'VD', 'VD', flag=mem('VD', 'd'), main=True),
    # optionals as payloads
    Kind('oo', 'tiny::optional<tiny::optional<int>>', 'tiny::optional<int>', 'nest', main=True, conv='int'),
    Kind('oos', 'tiny::optional<std::optional<int>>', 'std::optional<int>', 'nest', main=True, conv='int', tags='stdpay'),
    # hostile operators
    Kind('hp', 'tiny::optional<HP>', 'HP', 'HP', main=True, tags='hostile'),
    Kind('hpd', 'tiny::optional<HP, &HP::d>', 'HP', 'HP', flag=mem('HP', 'd'), main=True, tags='hostile'),
    Kind('hpi', 'tiny::optional<HP, &HP::i, 3>', 'HP', 'HP', flag=mem('HP', 'i'), main=True, tags='hostile'),
    Kind('hpf', 'tiny::optional_inplace<HP, FM_HP>', 'HP', 'HP', fm=True, tags='hostile'),
    Kind('hm', 'tiny::optional<HM, &HM::fl>', 'HM', 'HM', fm=True, main=True, tags='hostile'),
    Kind('an', 'tiny::optional<AN>', 'AN', 'AN', main=True, tags='hostile'),
    Kind('anf', 'tiny::optional_inplace<AN, FM_AN>', 'AN', 'AN', fm=True, tags='hostile'),
    Kind('and', 'tiny::optional<AN, &AN::d>', 'AN', 'AN', flag=mem('AN', 'd'), main=True, tags='hostile'),
]


def kinds_for(cfg):
    return [k for k in KINDS if k.std <= cfg.std]


for _k in KINDS:
    if _k.name in ['and', 'bgd', 'vip', 'fib', 'dbf', 'hpd', 'inpn', 'memb', 'memd', 'memdvt', 'memf', 'memfp', 'memp', 'mod', 'nap', 'tswd', 'tcb', 'tcd', 'tpf', 'tpp', 'u0d', 'u1b', 'u3d', 'u4p', 'tad', 'bnd', 'agb', 'ahd']:
        _k.tags.add('needbits')
KBY = {k.name: k for k in KINDS}


# ----------------------------------------------------------------------------------------------------- witnesses
class W:
    def __init__(self, name, group, params, body, need='', ret='void', full='', raw=None, kills='', std=17, only='',
                 opts='', rawafter=''):
        self.name = name
        self.group = group
        self.params = []
        for p in params.split(';'):
            p = p.strip()
            if not p:
                continue
            m = re.match(r'^(\w+)\s*=\s*(.*)$', p)
            self.params.append((m.group(1), m.group(2).strip()))
        self.body = body
        self.need = set(need.split())
        self.ret = ret
        self.full = set(full.split())      # optionals which have to be engaged (precondition)
        self.kills = set(kills.split())    # parameters whose lifetime ends
        self.std = std
        self.opts = set(opts.split())


def mkw():
    L = []

    def add(*a, **k):
        L.append(W(*a, **k))
    g = 'ctor'
    add('ctor_default', g, 'R=raw O', 'NEW(R, O)')
    add('ctor_defi', g, 'R=raw O', '::new (R) O')
    add('ctor_null', g, 'R=raw O', 'NEW(R, O, std::nullopt)')
    add('ctor_braces', g, 'R=raw O', '::new (R) O{}')
    add('ctor_copy', g, 'R=raw O; A=O const &', 'NEW(R, O, A)', 'copy')
    add('ctor_copy_l', g, 'R=raw O; A=O &', 'NEW(R, O, A)', 'copy')
    add('ctor_move', g, 'R=raw O; A=O &&', 'NEW(R, O, std::move(A))', 'move')
    add('ctor_cmove', g, 'R=raw O; A=O const &&', 'NEW(R, O, std::move(A))', 'copy')
    add('ctor_val_c', g, 'R=raw O; t=T const &', 'NEW(R, O, t)', 'copy')
    add('ctor_val_l', g, 'R=raw O; t=T &', 'NEW(R, O, t)', 'copy')
    add('ctor_val_m', g, 'R=raw O; t=T &&', 'NEW(R, O, std::move(t))', 'move')
    add('ctor_val_imp', g, 'R=raw O; t=T &&', '::new (R) O(fwd_impl<O>({std::move(t)}))', 'move')
    add('ctor_conv', g, 'R=raw O; u=U const &', 'NEW(R, O, u)', 'conv')
    add('ctor_arg_c', g, 'R=raw O; x=Arg const &', 'NEW(R, O, x)', 'argc')
    add('ctor_arg_l', g, 'R=raw O; x=Arg &', 'NEW(R, O, x)', 'argl')
    add('ctor_arg_m', g, 'R=raw O; x=Arg &&', 'NEW(R, O, std::move(x))', 'argm')
    add('ctor_xarg', g, 'R=raw O; x=XArg const &', 'NEW(R, O, x)', 'xarg')
    add('ctor_ip0', g, 'R=raw O', 'NEW(R, O, std::in_place)', 'dflt')
    add('ctor_ip0s', g, 'R=raw O', 'NEW(R, O, std::in_place)', 'dflt0', opts='zero')
    add('ctor_ip_val_c', g, 'R=raw O; t=T const &', 'NEW(R, O, std::in_place, t)', 'copy')
    add('ctor_ip_val_m', g, 'R=raw O; t=T &&', 'NEW(R, O, std::in_place, std::move(t))', 'move')
    add('ctor_ip_arg_c', g, 'R=raw O; x=Arg const &', 'NEW(R, O, std::in_place, x)', 'argc')
    add('ctor_ip_arg_l', g, 'R=raw O; x=Arg &', 'NEW(R, O, std::in_place, x)', 'argl')
    add('ctor_ip_arg_m', g, 'R=raw O; x=Arg &&', 'NEW(R, O, std::in_place, std::move(x))', 'argm')
    add('ctor_ip_2a', g, 'R=raw O; x=Arg &; y=Arg2 &&', 'NEW(R, O, std::in_place, x, std::move(y))', 'two')
    add('ctor_ip_2b', g, 'R=raw O; x=Arg const &; y=Arg2 const &', 'NEW(R, O, std::in_place, x, y)', 'two')
    add('ctor_ip_2c', g, 'R=raw O; x=Arg &&; y=Arg2 &', 'NEW(R, O, std::in_place, std::move(x), y)', 'two')
    add('ctor_ip_3', g, 'R=raw O; x=Arg const &; y=Arg2 &&; z=Arg &', 'NEW(R, O, std::in_place, x, std::move(y), z)', 'three')
    add('ctor_il3', g, 'R=raw O; i=IL &; y=Arg2 &&; z=Arg &', 'NEW(R, O, std::in_place, i, std::move(y), z)', 'il three')
    for q, ty, e in (('c', 'O const &', 'static_cast<DO const &>(A)'), ('l', 'O &', 'static_cast<DO &>(A)'), ('m', 'O &&', 'static_cast<DO &&>(A)')):
        add('ctor_der_' + q, g, 'R=raw O; A=' + ty, 'NEW(R, O, %s)' % e, 'der move' if q == 'm' else 'der copy')
    add('ctor_il', g, 'R=raw O; i=IL &', 'NEW(R, O, std::in_place, i)', 'il')
    add('ctor_il2', g, 'R=raw O; i=IL &; y=Arg2 &&', 'NEW(R, O, std::in_place, i, std::move(y))', 'il')
    g = 'dtor'
    add('dtor', g, 'A=O &', 'A.~O_t()', kills='A')
    add('nst_c', g, 'R=raw O; A=O const &', 'OPT<O> N(A); ::new (R) O(*N)', 'copy nest')
    add('nst_m', g, 'R=raw O; A=O &&', 'OPT<O> N(std::move(A)); ::new (R) O(std::move(*N))', 'copy move nest')
    add('nst_has', g, 'A=O const &', 'OPT<O> N(A); return N.has_value()', 'copy nest', 'bool')
    add('nst_hasi', g, 'A=O const &', 'OPT<O> N = A; return N->has_value()', 'copy nest', 'bool')
    add('nst_vor', g, 'R=raw O; A=O const &; B=O const &', 'OPT<O> N(A); ::new (R) O(N.value_or(B))', 'copy nest')
    add('nst_evor', g, 'R=raw O; B=O const &', 'OPT<O> N; ::new (R) O(N.value_or(B))', 'copy nest')
    g = 'assign'
    add('nst_as', g, 'R=raw O; A=O const &', 'OPT<O> N; N = A; ::new (R) O(*N)', 'copy ca nest')
    add('nst_as2', g, 'R=raw O; A=O const &; B=O &&', 'OPT<O> N(A); N = std::move(B); ::new (R) O(*N)', 'copy ca ma nest')
    add('nst_null', g, 'A=O const &', 'OPT<O> N(A); N = std::nullopt; return N.has_value()', 'copy nest', 'bool')
    add('nst_brace', g, 'A=O const &', 'OPT<O> N(A); N = {}; return N.has_value()', 'copy ca ma nest', 'bool')
    add('nst_val', g, 'R=raw O; t=BT const &', 'OPT<O> N; N = t; ::new (R) O(*N)', 'copy ca nest')
    RA = 'void const *'

    def addr(e):
        return 'return ADDR(%s)' % e
    add('as_copy', g, 'A=O &; B=O const &', addr('A = B'), 'ca', RA)
    add('as_copy_l', g, 'A=O &; B=O &', addr('A = B'), 'ca', RA)
    add('as_move', g, 'A=O &; B=O &&', addr('A = std::move(B)'), 'ma', RA)
    add('as_cmove', g, 'A=O &; B=O const &&', addr('A = std::move(B)'), 'ca', RA)
    add('as_null', g, 'A=O &', addr('A = std::nullopt'), '', RA)
    add('as_braces', g, 'A=O &', addr('A = {}'), 'ma', RA)
    add('as_val_c', g, 'A=O &; t=T const &', addr('A = t'), 'ca', RA)
    add('as_val_l', g, 'A=O &; t=T &', addr('A = t'), 'ca', RA)
    add('as_val_m', g, 'A=O &; t=T &&', addr('A = std::move(t)'), 'ma', RA)
    add('as_conv', g, 'A=O &; u=U const &', addr('A = u'), 'conv', RA)
    add('as_arg_c', g, 'A=O &; x=Arg const &', addr('A = x'), 'asarg argc', RA)
    add('as_arg_c2', g, 'A=O &; x=Arg const &', addr('A = x'), 'asargc', RA)
    add('as_arg_l', g, 'A=O &; x=Arg &', addr('A = x'), 'asarg argl', RA)
    add('as_arg_m', g, 'A=O &; x=Arg &&', addr('A = std::move(x)'), 'asarg argm', RA)
    add('as_arg_m2', g, 'A=O &; x=Arg &&', addr('A = std::move(x)'), 'asargm argm', RA)
    add('as_xarg', g, 'A=O &; x=XArg const &', addr('A = x'), 'asarg xarg', RA)
    for q, ty, e in (('c', 'O const &', 'static_cast<DO const &>(B)'), ('l', 'O &', 'static_cast<DO &>(B)'), ('m', 'O &&', 'static_cast<DO &&>(B)')):
        add('as_der_' + q, g, 'A=O &; B=' + ty, addr('A = ' + e), 'der ma' if q == 'm' else 'der ca', RA)
    g = 'emplace'
    add('em_3', g, 'A=O &; x=Arg const &; y=Arg2 &&; z=Arg &', addr('A.emplace(x, std::move(y), z)'), 'three', RA)
    add('em_il3', g, 'A=O &; i=IL &; y=Arg2 &&; z=Arg &', addr('A.emplace(i, std::move(y), z)'), 'il three', RA)
    add('em_0', g, 'A=O &', addr('A.emplace()'), 'dflt', RA)
    add('em_0s', g, 'A=O &', addr('A.emplace()'), 'dflt0', RA, opts='zero')
    add('em_val_c', g, 'A=O &; t=T const &', addr('A.emplace(t)'), 'copy', RA)
    add('em_val_m', g, 'A=O &; t=T &&', addr('A.emplace(std::move(t))'), 'move', RA)
    add('em_arg_c', g, 'A=O &; x=Arg const &', addr('A.emplace(x)'), 'argc', RA)
    add('em_arg_l', g, 'A=O &; x=Arg &', addr('A.emplace(x)'), 'argl', RA)
    add('em_arg_m', g, 'A=O &; x=Arg &&', addr('A.emplace(std::move(x))'), 'argm', RA)
    add('em_xarg', g, 'A=O &; x=XArg const &', addr('A.emplace(x)'), 'xarg', RA)
    add('em_2a', g, 'A=O &; x=Arg &; y=Arg2 &&', addr('A.emplace(x, std::move(y))'), 'two', RA)
    add('em_2c', g, 'A=O &; x=Arg &&; y=Arg2 &', addr('A.emplace(std::move(x), y)'), 'two', RA)
    add('em_il', g, 'A=O &; i=IL &', addr('A.emplace(i)'), 'il', RA)
    add('em_il2', g, 'A=O &; i=IL &; y=Arg2 &&', addr('A.emplace(i, std::move(y))'), 'il', RA)
    add('em_conv', g, 'A=O &; u=U const &', addr('A.emplace(u)'), 'conv', RA)
    add('reset', g, 'A=O &', 'A.reset()')
    g = 'make'
    add('mk_val_c', g, 'R=raw O; t=T const &', 'NEW(R, O, MAKE1(t))', 'copy mk1')
    add('mk_val_m', g, 'R=raw O; t=T &&', 'NEW(R, O, MAKE1(std::move(t)))', 'move mk1')
    add('mk_arg_c', g, 'R=raw O; x=Arg const &', 'NEW(R, O, MAKEN(x))', 'argc main')
    add('mk_arg_m', g, 'R=raw O; x=Arg &&', 'NEW(R, O, MAKEN(std::move(x)))', 'argm main')
    add('mk_0', g, 'R=raw O', 'NEW(R, O, MAKEN())', 'dflt main')
    add('mk_2a', g, 'R=raw O; x=Arg &; y=Arg2 &&', 'NEW(R, O, MAKEN(x, std::move(y)))', 'two main')
    add('mk_3', g, 'R=raw O; x=Arg const &; y=Arg2 &&; z=Arg &', 'NEW(R, O, MAKEN(x, std::move(y), z))', 'three main')
    add('mk_il', g, 'R=raw O; i=IL &', 'NEW(R, O, MAKEN(i))', 'il main')
    add('mk_il2', g, 'R=raw O; i=IL &; y=Arg2 &&', 'NEW(R, O, MAKEN(i, std::move(y)))', 'il main')
    add('dg_val', g, 'R=raw OT; t=BT &&', '::new (R) OT(OPTN(std::move(t)))', 'move dg')
    g = 'acc'
    add('has', g, 'A=O const &', 'return A.has_value()', '', 'bool')
    add('boolc', g, 'A=O const &', 'return static_cast<bool>(A)', '', 'bool')
    add('booll', g, 'A=O &', 'return A ? true : false', '', 'bool')
    for sfx, ty, e in (('l', 'O &', 'A'), ('c', 'O const &', 'A'), ('r', 'O &&', 'std::move(A)'),
                       ('cr', 'O const &&', 'std::move(A)')):
        add('deref_' + sfx, g, 'A=' + ty, 'auto && r = *%s; return ADDR(r)' % e, '', RA, full='A')
        add('value_' + sfx, g, 'A=' + ty, 'auto && r = %s.value(); return ADDR(r)' % e, '', RA)
    add('arrow_l', g, 'A=O &', 'return PTR(A.operator->())', '', RA, full='A')
    add('arrow_c', g, 'A=O const &', 'return PTR(A.operator->())', '', RA, full='A')
    add('take_deref', g, 'R=raw BT; A=O &&', 'NEW(R, BT, *std::move(A))', 'move', full='A')
    add('take_value', g, 'R=raw BT; A=O &&', 'NEW(R, BT, std::move(A).value())', 'move')
    add('take_cvalue', g, 'R=raw BT; A=O const &&', 'NEW(R, BT, std::move(A).value())', 'copy')
    add('take_cderef', g, 'R=raw BT; A=O const &&', 'NEW(R, BT, *std::move(A))', 'copy', full='A')
    add('copy_value', g, 'R=raw BT; A=O const &', 'NEW(R, BT, A.value())', 'copy')
    add('write_deref', g, 'A=O &; t=T &&', '*A = std::move(t)', 'ma', full='A')
    add('write_value', g, 'A=O &; t=T const &', 'A.value() = t', 'ca')
    add('vor_c_c', g, 'R=raw BT; A=O const &; t=BT const &', '::new (R) BT(A.value_or(t))', 'copy')
    add('vor_c_m', g, 'R=raw BT; A=O const &; t=BT &&', '::new (R) BT(A.value_or(std::move(t)))', 'copy')
    add('vor_l_l', g, 'R=raw BT; A=O &; t=BT &', '::new (R) BT(A.value_or(t))', 'copy')
    add('vor_m_c', g, 'R=raw BT; A=O &&; t=BT const &', '::new (R) BT(std::move(A).value_or(t))', 'move copy')
    add('vor_m_m', g, 'R=raw BT; A=O &&; t=BT &&', '::new (R) BT(std::move(A).value_or(std::move(t)))', 'move')
    add('vor_cm_m', g, 'R=raw BT; A=O const &&; t=BT &&', '::new (R) BT(std::move(A).value_or(std::move(t)))', 'copy')
    add('vor_c_arg', g, 'R=raw BT; A=O const &; x=Arg const &', '::new (R) BT(A.value_or(x))', 'copy argc')
    add('vor_m_arg', g, 'R=raw BT; A=O &&; x=Arg &&', '::new (R) BT(std::move(A).value_or(std::move(x)))', 'move argm')
    add('vor_conv', g, 'R=raw BT; A=O const &; u=U const &', '::new (R) BT(A.value_or(u))', 'conv')
    g = 'mon'
    for sfx, ty, e in (('l', 'O &', 'A'), ('c', 'O const &', 'A'), ('r', 'O &&', 'std::move(A)'),
                       ('cr', 'O const &&', 'std::move(A)')):
        for rn in ('RP', 'RI', 'RN', 'RF', 'HR'):
            if rn in ('RP', 'HR'):
                add('at_%s_%s' % (sfx, rn), g, 'R=raw Q%s; A=%s' % (rn, ty),
                    '::new (R) Q%s(%s.and_then(Then<Q%s>{}))' % (rn, e, rn), 'trans')
            add('tr_%s_%s' % (sfx, rn), g, 'R=raw Q%s; A=%s' % (rn, ty),
                '::new (R) Q%s(%s.transform(Map<%s>{}))' % (rn, e, rn), 'trans')
        for rn in ('RP', 'RN', 'RF'):
            add('trn_%s_%s' % (sfx, rn), g, 'R=raw Q%s; A=%s' % (rn, ty),
                '::new (R) Q%s(%s.transform(MapN<%s>{}))' % (rn, e, rn), 'trans')
        add('at_%s_E' % sfx, g, 'R=raw QRP; A=%s' % ty, '::new (R) QRP(%s.and_then(ThenEmpty<QRP>{}))' % e, 'trans')
        add('at_%s_S' % sfx, g, 'R=raw SRP; A=%s' % ty, '::new (R) SRP(%s.and_then(Then<SRP>{}))' % e, 'trans')
        add('at_%s_ref' % sfx, g, 'R=raw QRP; A=%s; F=QRP const &' % ty,
            '::new (R) QRP(%s.and_then(ThenRef<QRP>{ADDRT(F)}))' % e, 'trans')
        add('tr_%s_fq' % sfx, g, 'R=raw QRP; A=%s' % ty,
            'FQ f; ::new (R) QRP(%s.transform(f))' % e, 'trans')
        add('tr_%s_fqc' % sfx, g, 'R=raw QRP; A=%s' % ty,
            'FQ const f{}; ::new (R) QRP(%s.transform(f))' % e, 'trans')
        add('tr_%s_fqm' % sfx, g, 'R=raw QRP; A=%s' % ty,
            '::new (R) QRP(%s.transform(FQ{}))' % e, 'trans')
        add('at_%s_fq' % sfx, g, 'R=raw QRP; A=%s' % ty,
            'AQ<QRP> f; ::new (R) QRP(%s.and_then(f))' % e, 'trans')
        add('at_%s_fqm' % sfx, g, 'R=raw QRP; A=%s' % ty,
            '::new (R) QRP(%s.and_then(AQ<QRP>{}))' % e, 'trans')
        add('tr_%s_fn' % sfx, g, 'R=raw Qint; A=%s' % ty, '::new (R) Qint(%s.transform(MapInt{}))' % e, 'trans')
        add('tr_%s_dbl' % sfx, g, 'R=raw Qdouble; A=%s' % ty, '::new (R) Qdouble(%s.transform(MapDbl{}))' % e, 'trans')
        add('tr_%s_mp' % sfx, g, 'R=raw Qint; A=%s' % ty, '::new (R) Qint(%s.transform(&BT::geti))' % e, 'trans mp')
    add('oe_c', g, 'R=raw O; A=O const &', '::new (R) O(A.or_else(Else<O>{}))', 'copy orelse')
    add('oe_l', g, 'R=raw O; A=O &', '::new (R) O(A.or_else(Else<O>{}))', 'copy orelse')
    add('oe_r', g, 'R=raw O; A=O &&', '::new (R) O(std::move(A).or_else(Else<O>{}))', 'move orelse')
    add('oe_cr', g, 'R=raw O; A=O const &&', '::new (R) O(std::move(A).or_else(Else<O>{}))', 'copy orelse')
    add('oe_r_ref', g, 'R=raw O; A=O &&; F=O const &', '::new (R) O(std::move(A).or_else(ElseRef<O>{ADDRT(F)}))', 'copy move orelse')
    add('oe_c_ref', g, 'R=raw O; A=O const &; F=O const &', '::new (R) O(A.or_else(ElseRef<O>{ADDRT(F)}))', 'copy orelse')
    add('oe_r_fq', g, 'R=raw O; A=O &&', 'EQ<O> f; ::new (R) O(std::move(A).or_else(f))', 'move orelse')
    add('oe_c_fqm', g, 'R=raw O; A=O const &', '::new (R) O(A.or_else(EQ<O>{}))', 'copy orelse')
    g = 'cmp'
    ops = [('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')]
    for n, op in ops:
        nd = 'cmp'
        if n in ('eq', 'ne'):
            nd = 'cmpe'
        add('oo_' + n, g, 'A=O const &; B=O const &', 'return A %s B' % op, nd, 'bool')
        add('oh_' + n, g, 'A=O const &; B=H const &', 'return A %s B' % op, nd, 'bool')
        add('ho_' + n, g, 'A=H const &; B=O const &', 'return A %s B' % op, nd, 'bool')
        add('os_' + n, g, 'A=O const &; B=S const &', 'return A %s B' % op, nd, 'bool')
        add('so_' + n, g, 'A=S const &; B=O const &', 'return A %s B' % op, nd, 'bool')
        add('on_' + n, g, 'A=O const &', 'return A %s std::nullopt' % op, '', 'bool')
        add('no_' + n, g, 'A=O const &', 'return std::nullopt %s A' % op, '', 'bool')
        add('ov_' + n, g, 'A=O const &; t=BT const &', 'return A %s t' % op, nd, 'bool')
        add('vo_' + n, g, 'A=O const &; t=BT const &', 'return t %s A' % op, nd, 'bool')
        add('ox_' + n, g, 'A=O const &; x=Arg const &', 'return A %s x' % op, nd + ' cmparg', 'bool')
        add('xo_' + n, g, 'A=O const &; x=Arg const &', 'return x %s A' % op, nd + ' cmparg', 'bool')
        add('ou_' + n, g, 'A=O const &; u=U const &', 'return A %s u' % op, nd + ' conv', 'bool')
        add('uo_' + n, g, 'A=O const &; u=U const &', 'return u %s A' % op, nd + ' conv', 'bool')
        add('ll_' + n, g, 'A=O &; B=O &', 'return A %s B' % op, nd, 'bool')
        # optionals of optionals
        add('nn_' + n, g, 'A=O const &; B=O const &', 'OPT<O> N(A); OPT<O> M(B); return N %s M' % op, nd + ' nest', 'bool')
        add('ni_' + n, g, 'A=O const &; B=O const &', 'OPT<O> N(A); return N %s B' % op, nd + ' nest', 'bool')
        add('in_' + n, g, 'A=O const &; B=O const &', 'OPT<O> N(B); return A %s N' % op, nd + ' nest', 'bool')
        add('ei_' + n, g, 'B=O const &', 'OPT<O> N; return N %s B' % op, nd + ' nest', 'bool')
        add('en_' + n, g, 'B=O const &', 'OPT<O> N; OPT<O> M(B); return M %s N' % op, nd + ' nest', 'bool')
        add('nu_' + n, g, 'A=O const &; t=BT const &', 'OPT<O> N(A); return N %s t' % op, nd + ' nest', 'bool')
    for n, op in ops:
        if n == 'ne':
            continue
        if n == 'eq':
            continue
        # three-way: every consequence
        add('w3_oo_' + n, g, 'A=O const &; B=O const &', 'return (A <=> B) %s 0' % op, 'cmp3', 'bool', std=20)
        add('w3_on_' + n, g, 'A=O const &', 'return (A <=> std::nullopt) %s 0' % op, '', 'bool', std=20)
        add('w3_no_' + n, g, 'A=O const &', 'return (std::nullopt <=> A) %s 0' % op, '', 'bool', std=20)
        add('w3_ov_' + n, g, 'A=O const &; t=BT const &', 'return (A <=> t) %s 0' % op, 'cmp3', 'bool', std=20)
        add('w3_vo_' + n, g, 'A=O const &; t=BT const &', 'return (t <=> A) %s 0' % op, 'cmp3', 'bool', std=20)
        add('w3_oh_' + n, g, 'A=O const &; B=H const &', 'return (A <=> B) %s 0' % op, 'cmp3h', 'bool', std=20)
        add('w3_os_' + n, g, 'A=O const &; B=S const &', 'return (A <=> B) %s 0' % op, 'cmp3', 'bool', std=20)
        add('w3_so_' + n, g, 'A=S const &; B=O const &', 'return (A <=> B) %s 0' % op, 'cmp3', 'bool', std=20)
    g = 'hash'
    add('hash', g, 'A=O const &', 'return std::hash<O>{}(A)', 'hash', 'std::size_t')
    g = 'alias'
    add('al_copy', g, 'A=O &', 'O const & B = A; A = B', 'ca')
    add('al_move', g, 'A=O &', 'O & B = A; A = std::move(B)', 'ma')
    add('al_swap', g, 'A=O &', 'A.swap(A)', 'swap')
    add('al_swapf', g, 'A=O &', 'O & B = A; using std::swap; swap(A, B)', 'swap')
    add('al_val', g, 'A=O &', 'A = *A', 'ca', full='A')
    add('al_cval', g, 'A=O &', 'O const & B = A; A = *B', 'ca', full='A')
    add('al_mval', g, 'A=O &', 'A = std::move(*A)', 'ma', full='A')
    add('al_vval', g, 'A=O &', 'A = A.value()', 'ca')
    add('al_eq', g, 'A=O const &', 'return A == A', 'cmpe', 'bool')
    add('al_ne', g, 'A=O const &', 'return A != A', 'cmpe', 'bool')
    add('al_lt', g, 'A=O const &', 'return A < A', 'cmp', 'bool')
    add('al_le', g, 'A=O const &', 'return A <= A', 'cmp', 'bool')
    add('al_gt', g, 'A=O const &', 'return A > A', 'cmp', 'bool')
    add('al_ge', g, 'A=O const &', 'return A >= A', 'cmp', 'bool')
    add('al_veq', g, 'A=O const &', 'return A == *A', 'cmpe', 'bool', full='A')
    add('al_vor', g, 'R=raw BT; A=O const &', '::new (R) BT(A.value_or(*A))', 'copy', full='A')
    add('al_oe', g, 'R=raw O; A=O &', '::new (R) O(std::move(A).or_else(ElseRef<O>{ADDRT(A)}))', 'copy move orelse')
    add('al_at', g, 'A=O &', 'A = A.and_then(ThenRef<O>{ADDRT(A)})', 'ma copy trans')
    add('al_copyfrom', g, 'A=O &', 'A = O(A)', 'ma copy')
    g = 'swap'
    add('sw_mem', g, 'A=O &; B=O &', 'A.swap(B)', 'swap')
    add('sw_adl', g, 'A=O &; B=O &', 'swap(A, B)', 'swap')
    add('sw_using', g, 'A=O &; B=O &', 'using std::swap; swap(A, B)', 'swap')
    add('sw_std', g, 'A=O &; B=O &', 'using std::swap; A.swap(B); swap(B, A)', 'swap')
    return L


WITNESSES = mkw()
GROUPS = ['ctor', 'dtor', 'assign', 'emplace', 'make', 'acc', 'mon', 'cmp', 'hash', 'alias', 'swap']


def kind_features(k, side_std):
    f = set(k.feats)
    if k.main:
        f.add('main')
        if k.O == 'tiny::optional<%s>' % k.T and 'const' not in k.T and 'volatile' not in k.T:
            f.add('dg')
    if k.main and 'const' not in k.T and 'volatile' not in k.T:
        f.add('mk1')
    if 'cmp' in f:
        f.add('cmpe')
        if k.base in ('int', 'double', 'float', 'bool', 'uchar', 'EN', 'EM', 'EO', 'ES', 'uint', 'short', 'llong', 'longdouble', 'int*', 'char', 'ullong', 'wchar'):
            f.add('cmp3')
            if k.H != k.O and k.name not in ('sht', 'ull'):      # <=> between these would be narrowing
                f.add('cmp3h')
    if 'eqonly' in f:
        f.add('cmpe')
    if k.base == 'PT':
        f.add('cmparg')
    if k.conv:
        f.add('conv')
    if k.base in ('PT', 'PN', 'PS', 'PZ', 'PQ'):
        f.add('mp')
    f.add('orelse')
    if k.main and 'copy' in f and k.base in ('PT', 'int', 'double', 'EN', 'int*', 'PS'):
        f.add('nest')
    if k.base not in ('AN', 'bool'):
        f.add('der')
    return f


def select(k, groups, std):
    f = kind_features(k, std)
    out = []
    for w in WITNESSES:
        if w.group not in groups or not w.need <= f or std < w.std:
            continue
        if 'orelse' in w.need and std < 20:
            continue
        if 'eqonly' in k.feats and std < 20 and w.name.endswith('_ne'):
            continue    # no operator!= and no rewritten candidates
        out.append(w)
    return out


AUX_OPT = ['QHR', 'QRP', 'QRI', 'QRN', 'QRF', 'SRP', 'Qint', 'Qdouble']


def tu(k, ws, side):
    """Source text of the witness translation unit."""
    tiny = side == 'tiny'
    o = []
    a = o.append
    a('namespace w { typedef void (*FP)(int); typedef int TC::*MP; typedef int (TC::*MFP)(int) const;')
    a('using T = %s;' % k.T)
    a('using BT = std::remove_cv_t<T>;')
    if tiny:
        a('using O = %s; using H = %s;' % (k.O, k.H))
        a('template <class X> using OPT = tiny::optional<X>;')
        a('using OT = tiny::optional<BT>;')
        m = re.match(r'tiny::optional(?:_aip)?<([^,]*)(,.*)?>$', k.O)
        a('#define OPTN(x) tiny::optional(x)')
        extra = m.group(2) if m and m.group(2) else ''
        a('#define MAKE1(x) tiny::make_optional<decltype((x)) %s>(x)' % extra if False else '#define MAKE1(x) mk1<T>(x)')
        a('template <class X, class Y> auto mk1(Y && y) { return %s; }' % (
            'tiny::make_optional<Y%s>(std::forward<Y>(y))' % extra if 'aip' not in k.O and 'const' not in k.T and 'volatile' not in k.T
            else 'tiny::make_optional<T%s>(std::forward<Y>(y))' % extra if 'aip' not in k.O else 'O(std::forward<Y>(y))'))
        a('#define MAKEN(...) %s' % ('tiny::make_optional<T%s>(__VA_ARGS__)' % extra if 'aip' not in k.O else 'tiny::make_optional<T>(__VA_ARGS__)'))
    else:
        a('using O = std::optional<T>; using H = %s;' % k.HS)
        a('template <class X> using OPT = std::optional<X>;')
        a('using OT = std::optional<BT>;')
        a('#define OPTN(x) std::optional(x)')
        a('template <class X, class Y> auto mk1(Y && y) { if constexpr (std::is_same_v<T, BT>) return std::make_optional<Y>(std::forward<Y>(y)); else return std::make_optional<T>(std::forward<Y>(y)); }')
        a('#define MAKE1(x) mk1<T>(x)')
        a('#define MAKEN(...) std::make_optional<T>(__VA_ARGS__)')
    a('struct DO : O { using O::O; }; using O_t = O; using S = std::optional<T>; using IL = std::initializer_list<int>;')
    if k.conv:
        a('using U = %s;' % k.conv)
    a('using QRP = OPT<RP>; using QHR = OPT<HR>; using QRI = OPT<RI>; using QRN = OPT<RN>; using QRF = OPT<RF>; using SRP = std::optional<RP>; '
      'using Qint = OPT<int>; using Qdouble = OPT<double>;')
    a('extern "C" {')
    used = {'O'}
    for w in ws:
        for n, t in w.params:
            b = base_of(t)
            if b in ('H', 'S', 'OT') or b in AUX_OPT:
                used.add(b)
    for al in sorted(used):
        tt = '%s::value_type' % al
        a('void %s_mk_empty(void * r) { ::new (r) %s; }' % (al, al))
        a('void %s_mk_full(void * r, SrcOf<%s> & s) { full<%s>(r, s); }' % (al, tt, al))
        a('bool %s_has(%s const & o) { return o.has_value(); }' % (al, al))
        a('bool %s_bool(%s const & o) { return static_cast<bool>(o); }' % (al, al))
        a('void const * %s_val(%s const & o) { return ADDR(*o); }' % (al, al))
        for nm, e in (('osize', 'sizeof(%s)' % al), ('tsize', 'sizeof(%s)' % tt)):
            a('extern unsigned long const c_%s_%s; unsigned long const c_%s_%s = %s;' % (al, nm, al, nm, e))
    if k.flag and tiny:
        for nm, e in (('foff', k.flag[0]), ('fsize', k.flag[1])):
            a('extern unsigned long const c_O_%s; unsigned long const c_O_%s = %s;' % (nm, nm, e))
    for nm, e in (('BT', 'sizeof(BT)'), ('U', 'sizeof(%s)' % ('U' if k.conv else 'char')), ('IL', 'sizeof(IL)')):
        a('extern unsigned long const c_%s_size; unsigned long const c_%s_size = %s;' % (nm, nm, e))
    lines = {}
    pre = '\n'.join(o) + '\n'
    ln = pre.count('\n') + 1
    body = []
    for w in ws:
        ps = []
        for n, t in w.params:
            if t.startswith('raw'):
                ps.append('void * %s' % n)
            else:
                ps.append('%s %s' % (t, n))
        body.append('%s %s(%s) { %s; }' % (w.ret, 'w_' + w.name, ', '.join(ps), w.body))
        lines[ln] = w.name
        ln += 1
    return pre + '\n'.join(body) + '\n}}\n', lines


def base_of(t):
    if t.startswith('raw'):
        return t.split()[1]
    return re.sub(r'\s*(const|&&|&)\s*', ' ', t).strip()


# ----------------------------------------------------------------------------------------------------- compilation
class Config:
    def __init__(self, name, std=20, flags=(), m32=False, ndebug=True, oracle=None):
        self.oracle = oracle
        self.name = name
        self.std = std
        self.flags = list(flags)
        self.m32 = m32
        self.ndebug = ndebug

    def args(self, inc=None):
        stdn = {17: 'c++17', 20: 'c++20', 23: 'c++2b'}[self.std]
        r = ['-std=' + stdn, '-I', (inc or REPO) + '/include', '-O1', '-Xclang', '-disable-llvm-passes',
             '-gline-tables-only', '-w'] + self.flags
        if self.ndebug:
            r.append('-DNDEBUG')
        if self.m32:
            r.append('-m32')
        return r


ORACLE = Config('oracle', 23, ['-DW_ORACLE'])
ORACLE32 = Config('oracle32', 23, ['-DW_ORACLE'], m32=True)
A64 = ['--target=aarch64-linux-gnu', '-isystem', os.path.join(HERE, 'xinc'), '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu']
ORACLE64A = Config('oracle64a', 23, ['-DW_ORACLE', '-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS'] + A64)
CONFIGS = {
    'a64': Config('a64', 20, ['-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS'] + A64, oracle=ORACLE64A),
    'c20': Config('c20', 20),
    'c17': Config('c17', 17),
    'c23': Config('c23', 23),
    'dbg': Config('dbg', 20, ndebug=False),
    'm32': Config('m32', 20, m32=True),
    'noub': Config('noub', 20, ['-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS']),
    'nobits': Config('nobits', 20, ['-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS']),
    'nomem': Config('nomem', 20, ['-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER']),
    'c17dbg': Config('c17dbg', 17, ndebug=False),
    'm32dbg': Config('m32dbg', 17, m32=True, ndebug=False),
    'cwg': Config('cwg', 20, ['-DTINY_OPTIONAL_GCC_WORKAROUND_CWG2445']),
}


def oracle_of(cfg):
    return cfg.oracle or (ORACLE32 if cfg.m32 else ORACLE)


class CompileError(Exception):
    def __init__(self, text):
        self.text = text


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def build_pch(cfg, tmp):
    out = os.path.join(tmp, 'prelude-%s.pch' % cfg.name)
    rc, txt = run([CLANG] + cfg.args() + ['-x', 'c++-header', os.path.join(HERE, 'prelude.h'), '-o', out])
    if rc:
        raise CompileError(txt)
    return out


def compile_tu(cfg, src, tmp, stem, pch=None):
    f = os.path.join(tmp, stem + '.cpp')
    with open(f, 'w') as h:
        if pch is None:
            h.write('#include "%s/prelude.h"\n#line 1 "witness"\n' % HERE)
        else:
            h.write('#line 1 "witness"\n')
        h.write(src)
    out = os.path.join(tmp, stem + '.bc')
    cmd = [CLANG] + cfg.args()
    if pch:
        cmd += ['-include-pch', pch]
    rc, txt = run(cmd + ['-ferror-limit=0', '-emit-llvm', '-c', f, '-o', out])
    if rc:
        raise CompileError(txt)
    return out


# ----------------------------------------------------------------------------------------------------- analysis
VALBYTES = {
    'EE': [(0, 0)], 'TC': [(0, 13)], 'TSW': [(0, 4), (8, 16)], 'TP': [(0, 5), (8, 22), (24, 32)], 'longdouble': [(0, 10)],
}
VALBYTES32 = {'EE': [(0, 0)], 'TC': [(0, 13)], 'TSW': [(0, 12)], 'TP': [(0, 5), (8, 18), (20, 28)], 'longdouble': [(0, 10)]}


class Alias:
    pass


class Side:
    """One analysed translation unit (library or reference)."""

    def __init__(self, k, mod, tiny, m32, reserved=None):
        self.k = k
        self.mod = mod
        self.tiny = tiny
        self.m32 = m32
        self.consts = {}
        for n, g in mod.globals.items():
            if g[1] is not None and g[1][0] == 'i' and (n.startswith('c_') or n.startswith('w_size_') or n.startswith('w_usize_')):
                self.consts[n] = g[1][2]
        self.sizes = {'w::' + n[7:]: v for n, v in self.consts.items() if n.startswith('w_size_')}
        usizes = {'w::' + n[8:]: v for n, v in self.consts.items() if n.startswith('w_usize_')}
        # the precondition "the sentinel is not stored" is assumed on both sides
        self.eng = absint.Engine(mod, self.sizes, dict(reserved) if reserved else {})
        self.eng.usizes = usizes
        self.eng.ufam = {'w::' + k.base: 'val:O'}
        self.eng.tassign = {'w::TA'}
        if k.opq:
            self.eng.probe = k.cls
        self.al = {}
        self.seed_findings = []
        for n in sorted(self.consts, key=lambda n: n != 'c_O_osize'):
            m = re.match(r'^c_(\w+)_osize$', n)
            if m:
                self.alias(m.group(1))

    def cls_of(self, al):
        if al in ('O', 'S', 'OT'):
            return self.k.cls if self.k.opq else None
        if al == 'H':
            m = re.match(r'std::optional<(\w+)', self.k.HS)
            c = 'w::' + m.group(1)
            return c if c in self.sizes else None
        c = 'w::' + al[1:]
        return c if c in self.sizes else None

    def fam(self, al):
        return self.cls_of(al) or ('val:' + ('O' if al == 'OT' else al))

    def fresh(self, name, al_or_cls, n):
        return [('s', (al_or_cls, name), j) for j in range(n)]

    def alias(self, n):
        a = Alias()
        a.name = n
        a.osize = self.consts['c_%s_osize' % n]
        a.tsize = self.consts['c_%s_tsize' % n]
        a.cls = self.cls_of(n)
        self.al[n] = a
        a.slot = 0
        a.ok = False
        a.flagrange = None
        # empty image
        st = absint.State()
        st.mem['Z'] = [None] * a.osize
        outs = self.eng.run(n + '_mk_empty', [('p', 'Z', 0)], st)
        good = [o for o in outs if o.exit == ('return',)]
        for o in outs:
            if o.exit[0] in ('VIOLATION', 'UNSUPPORTED', 'terminate', 'assert'):
                self.seed_findings.append((n, 'EMPTY', o))
        if not good:
            return
        s = good[0].st
        a.empty = (list(s.mem['Z']), {kk[1]: v for kk, v in s.live.items() if kk[0] == 'Z'},
                   {kk[1]: v for kk, v in s.flags.items() if kk[0] == 'Z'})
        a.fm = bool(a.empty[2])
        a.inplace = a.osize == a.tsize
        # reserved pattern
        if self.tiny and a.inplace and not a.fm and not ('ufm' in self.k.tags and n in ('O', 'H')):
            if n == 'O':
                lo, sz = self.consts.get('c_O_foff', 0), self.consts.get('c_O_fsize', a.tsize)
            else:
                img = a.empty[0]
                idx = [j for j, b in enumerate(img) if isinstance(b, int)]
                lo, sz = (idx[0], idx[-1] - idx[0] + 1) if idx else (0, 0)
            pat = a.empty[0][lo:lo + sz]
            a.flagrange = (lo, sz)
            a.pattern = pat
            if sz and all(isinstance(b, int) for b in pat):
                if self.k.base == 'longdouble' and n == 'O':
                    pass
                self.eng.reserved.setdefault(self.fam(n), []).append((lo, tuple(pat)))
                self.eng.reserved.setdefault('term', []).append((lo, tuple(pat)))
        # payload slot
        a.ok = True
        f = self.full_state(a, 'Z')
        if f is None:
            a.ok = False
            return
        st = absint.State()
        st.mem['Z'], live, fl = list(f[0]), f[1], f[2]
        st.live = {('Z', o): c for o, c in live.items()}
        st.flags = {('Z', o): c for o, c in fl.items()}
        outs = self.eng.run(n + '_val', [('p', 'Z', 0)], st)
        good = [o for o in outs if o.exit == ('return',) and o.ret[0] == 'p' and o.ret[1] == 'Z']
        if not good:
            a.ok = False
            for o in outs:
                self.seed_findings.append((n, 'FULL', o))
            return
        a.slot = good[0].ret[2]
        a.full = f

    def full_state(self, a, region):
        """Abstract image of an engaged optional."""
        st = absint.State()
        st.nsym = 100 + (sum(map(ord, region)) % 50) * 20
        st.mem[region] = [None] * a.osize
        st.ubase = region
        if a.cls:
            st.mem['src'] = self.fresh('src', 'w::Arg', self.sizes['w::Arg'])
            st.live[('src', 0)] = 'w::Arg'
        else:
            st.mem['src'] = self.fresh(region, self.fam(a.name), a.tsize)
            vb = (VALBYTES32 if self.m32 else VALBYTES).get(self.k.base) if a.name in ('O', 'S', 'OT') else None
            if vb:
                for j in range(a.tsize):
                    if not any(lo <= j < hi for lo, hi in vb):
                        st.mem['src'][j] = None
        outs = self.eng.run(a.name + '_mk_full', [('p', region, 0), ('p', 'src', 0)], st)
        good = [o for o in outs if o.exit == ('return',)]
        for o in outs:
            if o.exit[0] in ('VIOLATION', 'UNSUPPORTED', 'terminate', 'assert'):
                self.seed_findings.append((a.name, 'FULL', o))
        if not good:
            return None
        s = good[0].st
        return (list(s.mem[region]), {kk[1]: v for kk, v in s.live.items() if kk[0] == region},
                {kk[1]: v for kk, v in s.flags.items() if kk[0] == region})

    # ------------------------------------------------------------------------------------------ running a witness
    def entry(self, w, combo, const_values=None):
        """Initial state and arguments for witness w with the given engagement of its optional parameters."""
        st = absint.State()
        args = []
        for n, t in w.params:
            b = base_of(t)
            args.append(('p', n, 0))
            if t.startswith('raw'):
                if b in self.al:
                    st.mem[n] = [None] * self.al[b].osize
                else:
                    st.mem[n] = [None] * self.consts['c_BT_size']
                continue
            if ' const' in t:
                st.ro = dict(st.ro)
                st.ro[n] = True
            if b in self.al:
                a = self.al[b]
                img = a.empty if combo[n] == 'EMPTY' else self.full_state(a, n)
                if img is None:
                    return None
                st.mem[n] = list(img[0])
                for o, c in img[1].items():
                    st.live[(n, o)] = c
                for o, c in img[2].items():
                    st.flags[(n, o)] = c
            elif b in ('T', 'BT'):
                if self.k.opq:
                    c = self.k.cls
                    st.mem[n] = self.fresh(n, c, self.consts['c_BT_size'])
                    st.live[(n, 0)] = c
                else:
                    nb = self.consts['c_BT_size']
                    st.mem[n] = self.fresh(n, 'val:O', nb)
                    vb = (VALBYTES32 if self.m32 else VALBYTES).get(self.k.base)
                    if vb:
                        for j in range(nb):
                            if not any(lo <= j < hi for lo, hi in vb):
                                st.mem[n][j] = None
                    if const_values and n in const_values:
                        st.mem[n] = list(const_values[n])
            elif b == 'U':
                st.mem[n] = self.fresh(n, 'val:U', self.consts['c_U_size'])
            elif b == 'IL':
                st.mem[n] = self.fresh(n, 'val:IL', self.consts['c_IL_size'])
            else:
                c = 'w::' + b
                st.mem[n] = self.fresh(n, c, self.sizes[c])
                st.live[(n, 0)] = c
        st.nsym = 5000
        return st, args

    def engagement(self, st, al, region):
        """'EMPTY' | 'FULL' | text of the problem"""
        a = self.al[al]
        s = st.clone()
        s.frames = []
        s.ev = ()
        s.evloc = ()
        s.notes = ()
        s.ro = {region: True}
        outs = self.eng.run(al + '_has', [('p', region, 0)], s)
        res = set()
        for o in outs:
            if o.exit == ('return',) and o.ret[0] == 'i':
                res.add(bool(o.ret[2]))
            else:
                return 'undetermined (has_value(): %s)' % (' '.join(map(str, o.exit)))
        if len(res) != 1:
            return 'undetermined (has_value() depends on the value stored)'
        return 'FULL' if res.pop() else 'EMPTY'

    def combos(self, w):
        opts = [(n, base_of(t)) for n, t in w.params if not t.startswith('raw') and base_of(t) in self.al]
        res = [{}]
        for n, b in opts:
            sts = ['FULL'] if n in w.full else ['EMPTY', 'FULL']
            res = [dict(r, **{n: s}) for r in res for s in sts]
        return res

    def analyse(self, w, combo, const_values=None):
        """Rows of the decision table and findings of the typestate rules."""
        ent = self.entry(w, combo, const_values)
        if ent is None:
            return None, []
        st, args = ent
        outs = self.eng.run('w_' + w.name, args, st)
        rows = {}
        finds = []
        for o in outs:
            if o.exit[0] in ('VIOLATION', 'UNSUPPORTED'):
                finds.append(dict(rule=o.exit[1] if o.exit[0] == 'VIOLATION' else 'UNSUPPORTED',
                                  text=o.exit[2] if o.exit[0] == 'VIOLATION' else o.exit[1], loc=o.loc,
                                  trace=self.trace(o.st), inthrow=bool(o.st.ctx) or any(e[2] == 'throw' for e in o.st.ev),
                                  notes=sorted(set((n[0], n[1]) for n in o.st.notes))))
                continue
            r = self.row(w, o, finds)
            rows.setdefault(r, o)
        return rows, finds

    def trace(self, st):
        out = []
        for e, l in zip(st.ev, st.evloc):
            lib = [x for x in l if 'optional' in str(x[0])]
            where = lib[0] if lib else (l[0] if l else None)
            out.append('%s%s%s' % (e[0], ' THROWS' if e[2] == 'throw' else '',
                                   '  [%s:%s]' % (os.path.basename(str(where[0])), where[1]) if where else ''))
        return out

    def row(self, w, o, finds):
        st = o.st
        par = dict(w.params)
        throwing = o.exit[0] == 'throw'
        inthrow = bool(st.ctx) or any(e[2] == 'throw' for e in st.ev)

        def F(rule, text):
            finds.append(dict(rule=rule, text=text, loc=o.loc, trace=self.trace(st), inthrow=inthrow, notes=[]))
        engs = []
        vals = []
        allowed = set()
        slots = {}
        if o.exit[0] in ('return', 'throw'):
            for n, t in w.params:
                b = base_of(t)
                raw = t.startswith('raw')
                if b in self.al:
                    a = self.al[b]
                    slots[n] = (a.slot, a.tsize)
                    if (raw and throwing) or (n in w.kills and not throwing):
                        engs.append((n, 'NONE'))
                        for (r, off), c in st.live.items():
                            if r == n:
                                F('LEAK', 'a live %s stays behind in the storage of a destroyed or never constructed optional' % c[3:])
                        for (r, off), c in st.flags.items():
                            if r == n:
                                F('FLAGLEAK', 'a live empty flag stays behind in the storage of a destroyed or never constructed optional')
                        continue
                    e = self.engagement(st, b, n)
                    engs.append((n, e))
                    lv = {off: c for (r, off), c in st.live.items() if r == n}
                    fl = {off: c for (r, off), c in st.flags.items() if r == n}
                    if e == 'FULL':
                        if a.cls and lv != {a.slot: a.cls}:
                            F('INV', '%s reports a value but holds no live payload' % n)
                        if fl:
                            F('FLAG', '%s reports a value while its empty flag is alive' % n)
                        if a.cls:
                            allowed.add((n, a.slot))
                        if a.full:
                            for j in range(a.osize):
                                if not (a.slot <= j < a.slot + a.tsize) and isinstance(a.full[0][j], int) \
                                        and st.mem[n][j] != a.full[0][j]:
                                    F('CLOSURE', 'byte %d of engaged %s is %s' % (j, n, st.mem[n][j]))
                        if not a.cls:
                            data = st.mem[n][a.slot:a.slot + a.tsize]
                            vb = (VALBYTES32 if self.m32 else VALBYTES).get(self.k.base) if b in ('O', 'S', 'OT') else None
                            if vb:
                                data = [x for lo, hi in vb for x in data[lo:hi]]
                            vals.append((n, tuple(data)))
                    elif e == 'EMPTY':
                        if lv:
                            F('LEAK', '%s reports to be empty but still holds a live payload' % n)
                            allowed |= {(n, off) for off in lv}
                        if a.fm and not fl:
                            F('FLAG', '%s is empty but its empty flag was never initialised' % n)
                        if a.fm and fl and set(fl) != set(a.empty[2]):
                            F('FLAG', '%s has its empty flag at the wrong place' % n)
                        if self.tiny and a.flagrange:
                            lo, sz = a.flagrange
                            if st.mem[n][lo:lo + sz] != a.empty[0][lo:lo + sz]:
                                F('CLOSURE', 'the empty pattern of %s differs from the one of a default constructed optional' % n)
                    else:
                        F('INV', 'engagement of %s is %s' % (n, e))
                        allowed |= {(n, off) for off in lv}
                elif raw:
                    if throwing:
                        continue
                    if self.k.opq:
                        if st.live.get((n, 0)) != self.k.cls:
                            F('LIFE', 'no result object was constructed')
                        allowed.add((n, 0))
                    else:
                        data = list(st.mem[n])
                        vb = (VALBYTES32 if self.m32 else VALBYTES).get(self.k.base)
                        if vb:
                            data = [x for lo, hi in vb for x in data[lo:hi]]
                        vals.append((n, tuple(data)))
                else:
                    if (n, 0) in st.live:
                        allowed.add((n, 0))
                    elif b not in ('U', 'IL') and not (b in ('T', 'BT') and not self.k.opq):
                        F('LIFE', 'argument %s was destroyed' % n)
                    elif b in ('T', 'BT', 'U', 'IL'):
                        vals.append((n, tuple(st.mem[n])))
            for (r, off), c in st.live.items():
                if (r, off) not in allowed and r in par and engs and dict(engs).get(r) != 'NONE':
                    F('LEAK', 'a live %s is left at %s+%d' % (c[3:], r, off))
        # normalised events
        tmp = {}

        def nreg(r, off):
            if r in slots:
                lo, sz = slots[r]
                if lo <= off < lo + sz or off == lo:
                    return (r, 'payload', off - lo)
                return (r, 'storage', off)
            if r.startswith('#'):
                if r not in tmp:
                    tmp[r] = 'tmp%d' % len(tmp)
                return (tmp[r], off)
            if r.startswith('@_ZTI') or r.startswith('@'):
                return (r, off)
            return (r, off)

        def norm(v):
            if isinstance(v, tuple):
                if len(v) == 3 and v[0] in ('p', '&') and isinstance(v[1], str):
                    return ('&',) + nreg(v[1], v[2])
                if len(v) == 4 and v[0] in ('this', 'ret') and v[1] == '&':
                    return (v[0], nreg(v[2], v[3]))
                if len(v) == 4 and v[0] == 'P':
                    return ('P',) + nreg(v[1], v[2]) + (v[3],)
                return tuple(norm(x) for x in v)
            return v
        evs = []
        idxmap = {}
        for j, e in enumerate(st.ev):
            if e[0].startswith('FM::'):
                continue
            idxmap[j] = len(evs)
            evs.append((self.evname(e[0]), norm(e[1]), e[2]))
        ex = o.exit
        if throwing and re.match(r'^E\d+$', str(ex[1])):
            ex = ('throw', 'E%d' % idxmap.get(int(ex[1][1:]), -1))
        if ex[0] == 'assert':
            ex = ('assert',)
        conds = []
        pinned = {}
        for t, v in st.facts.items():
            if t[2] == 'exc-is' or t in self.eng.partials:
                continue
            if t[2] in ('eq', 'foeq') and self.internal(t):
                if t[2] == 'eq':
                    u, c = (t[3], t[4]) if t[4][0] == 'i' else (t[4], t[3])
                    pinned.setdefault(c, []).append((u, v))
                continue
            conds.append((norm(t), v))
        # tests against a sentinel are internal; what they imply about two operands is not
        for c, us in pinned.items():
            for j, (u, v) in enumerate(us):
                for u2, v2 in us[j + 1:]:
                    if u != u2 and (v or v2):
                        conds.append((norm(self.eng.eqatom(u, u2)), v and v2))
        ret = norm(o.ret) if o.ret is not None else None
        if ret is not None and ret[0] == 'i' and w.ret == 'bool':
            ret = bool(ret[2] & 1)
        notes = tuple(sorted(set((n[0], n[1]) for n in st.notes)))
        return (frozenset(conds), ex, ret, tuple(engs), tuple(evs), norm(tuple(vals)), notes)

    @staticmethod
    def evname(n):
        return n

    @staticmethod
    def internal(t):
        a, b = t[3], t[4]
        for u, c in ((a, b), (b, a)):
            if c[0] == 'i' and (u[0] == 'v' or (u[0] == 'x' and u[2] in ('ret', 'sext', 'zext', 'fpext', 'fptrunc', 'trunc', 'sitofp'))):
                return True
        return False


COND, EXIT, RET, ENG, EV, VAL, NOTES = range(7)


FREL = {  # relations of two floating point values for which the atom holds
    'foeq': {'eq'}, 'folt': {'lt'}, 'fole': {'lt', 'eq'}, 'fone': {'lt', 'gt'}, 'funo': {'un'},
}
SWAP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', 'un': 'un'}


def to_rel(rows):
    """Comparison facts become relations of operand pairs: rows with {key: set of relations / {bool}} conditions."""
    out = []
    signs = {}
    for r in rows:
        cur = {}
        for t, v in r[COND]:
            op = t[2] if isinstance(t, tuple) and len(t) == 5 and t[0] == 'x' else None
            if op in ('eq', 'slt', 'ult') or op in FREL:
                a, b = t[3], t[4]
                fl = op in FREL
                holds = FREL[op] if fl else ({'eq'} if op == 'eq' else {'lt'})
                if repr(b) < repr(a):
                    a, b = b, a
                    holds = {SWAP[x] for x in holds}
                allr = relations(fl, a, b)
                key = ('rel', 'f' if fl else 'i', a, b)
                cur[key] = cur.get(key, allr) & (holds if v else allr - holds)
                if op in ('slt', 'ult'):
                    signs.setdefault(key, set()).add(op[0])
            else:
                cur[t] = cur.get(t, frozenset([True, False])) & {v}
        if all(cur.values()):
            out.append((cur, r))
    return out, signs


ALLI = frozenset(['lt', 'eq', 'gt'])
ALLF = frozenset(['lt', 'eq', 'gt', 'un'])


def relations(fl, a, b):
    """Possible relations of two values."""
    r = ALLF if fl else ALLI
    return r - {'lt', 'gt'} if a == b else r


def canon(T, S):
    """Both tables expanded over the same complete set of conditions."""
    a, sa = to_rel(T)
    b, sb = to_rel(S)
    keys = set()
    for cur, r in a + b:
        keys |= set(cur)
    # conditions which matter for none of the rows of a table are dropped by the expansion itself
    keys = sorted(keys, key=repr)
    dom = {k: relations(k[1] == 'f', k[2], k[3]) if k[0] == 'rel' else frozenset([True, False]) for k in keys}

    def expand(rows, signs, other):
        res = set()
        for cur, r in rows:
            exp = [()]
            for k in keys:
                vals = cur.get(k, dom[k])
                sg = '-'
                if k[0] == 'rel' and k in signs and k in other and signs[k] != other[k]:
                    sg = ''.join(sorted(signs[k]))
                exp = [e + ((k, (x, sg)),) for e in exp for x in vals]
                if len(exp) > 5000:
                    raise absint.AnalysisLimit('too many conditions')
            for e in exp:
                res.add((frozenset(e),) + r[1:])
        return res
    return expand(a, sa, sb), expand(b, sb, sa)


def fmt_row(r):
    s = []
    if r[COND]:
        s.append('if ' + ' and '.join(
            '%s %s %s' % (short(t[2]), v[0], short(t[3])) if t[0] == 'rel' and isinstance(v, tuple)
            else ('' if (v[0] if isinstance(v, tuple) else v) else 'not ') + short(t) for t, v in sorted(r[COND], key=repr)))
    s.append('events [' + ', '.join('%s(%s)%s' % (e[0].split('(')[0], ', '.join(short(a) for a in e[1]), ' throws' if e[2] == 'throw' else '')
                                     for e in r[EV]) + ']')
    s.append('exit ' + ' '.join(map(str, r[EXIT])))
    if r[RET] is not None:
        s.append('returns ' + short(r[RET]))
    s.append('then ' + ', '.join('%s=%s' % e for e in r[ENG]))
    if r[VAL]:
        s.append('values ' + '; '.join('%s: %s' % (n, short(v)) for n, v in r[VAL]))
    return '; '.join(s)


def short(v):
    if isinstance(v, tuple):
        if len(v) >= 2 and v[0] == 'v':
            return short(v[1])
        if v and all(isinstance(x, tuple) and x and x[0] == 's' for x in v):
            if all(x[1] == v[0][1] for x in v):
                return 'bytes of %s' % (v[0][1][1],)
        if len(v) == 3 and v[0] == 'i':
            return hex(v[2])
        if v and v[0] in ('&', 'this', 'ret'):
            return v[0] + '.'.join(str(x) for x in (v[1] if isinstance(v[1], tuple) else v[1:]))
        if v and v[0] == 'x':
            return '%s(%s)' % (v[2], ', '.join(short(x) for x in v[3:]))
        return '(' + ' '.join(short(x) for x in v) + ')'
    return str(v)


def compare(w, combo, rt, rs):
    """Differences between the decision tables of the library (rt) and the reference (rs)."""
    strip = lambda r: r[:NOTES]
    T = {strip(r) for r in rt}
    S = {strip(r) for r in rs}
    if w.group == 'hash':
        def h(rows):
            out = set()
            for r in rows:
                if not r[EV] and combo.get('A') == 'EMPTY' and r[RET] is not None and r[RET][0] == 'i':
                    r = r[:RET] + ('const',) + r[RET + 1:]
                out.add(r)
            return out
        T, S = h(T), h(S)
    if T != S:
        T, S = canon(T, S)
    if T == S:
        return None
    tags = set()
    for thr in (False, True):
        t = {r for r in T if (any(e[2] == 'throw' for e in r[EV]) or r[EXIT][0] == 'throw') == thr}
        s = {r for r in S if (any(e[2] == 'throw' for e in r[EV]) or r[EXIT][0] == 'throw') == thr}
        if t == s:
            continue
        pre = 'throw-' if thr else ''
        n = len(tags)
        for name, cols in (('exit', (COND, EXIT)), ('ret', (COND, RET)), ('eng', (COND, ENG)), ('ev', (COND, EV)), ('val', (COND, VAL))):
            if {tuple(r[c] for c in cols) for r in t} != {tuple(r[c] for c in cols) for r in s}:
                tags.add(pre + name)
        if len(tags) == n:
            for x in ('exit', 'eng', 'ev', 'val', 'ret'):
                tags.add(pre + x)
        if any(r[EXIT][0] == 'terminate' for r in t - s):
            tags.add('terminate')
        if any(r[EXIT][0] == 'assert' for r in t - s):
            tags.add('assert')
    return tags, sorted(T - S, key=repr), sorted(S - T, key=repr)
