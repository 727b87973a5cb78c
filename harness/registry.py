"""Which models, generators and clauses decide which property."""
import gens as g
import gens2 as g2
import gens3 as g3
import gens4 as g4
import gens5 as g5
import gens6 as g6
import gens7 as g7
import gens8 as g8
import gens9 as g9
import gens10 as g10
import gens11 as g11
import gens12 as g12
import gens13 as g13
import gens14 as g14
import gens15 as g15
import gens16 as g16
import gens17 as g17
import gens18 as g18

GEO = ('OpsGeo', 'Ops', 'OpsGeo')
STORE = ('Store', 'Store', 'Store')
TORN = ('StoreTorn', 'Store', 'StoreTorn')
META = ('OpsMeta', 'Ops', 'OpsMeta')
DOM = ('DomainMC', 'DomainMC', 'DomainMC', 2)
DOMDEEP = ('DomainDeep', 'DomainMC', 'DomainDeep', 6)
ND = ('NdarrayMC', 'NdarrayMC', 'NdarrayMC', 2)
NDDEEP = ('NdarrayDeep', 'NdarrayMC', 'NdarrayDeep', 6)
HDR = ('HeaderMC', 'HeaderMC', 'HeaderMC', 2)
CLI = ('CliMC', 'CliMC', 'CliMC', 2)
CLIDEEP = ('CliDeep', 'CliMC', 'CliDeep', 6)
SESS = ('SessionMC', 'Session', 'SessionMC', 2)
SESSDEEP = ('SessionDeep', 'Session', 'SessionDeep', 4)
VERB = ('VerbosityMC', 'VerbosityMC', 'VerbosityMC', 1)
VERBDEEP = ('VerbosityDeep', 'VerbosityMC', 'VerbosityDeep', 2)
ROUTES = ('RoutesMC', 'Routes', 'RoutesMC', 2)
ROUTESDEEP = ('RoutesDeep', 'Routes', 'RoutesDeep', 4)
PAR = ('ParMC', 'Par', 'ParMC', 3)
PARTRIPLES = ('ParTriples', 'Par', 'ParTriples', 2)
PARDEEP = ('ParDeep', 'Par', 'ParDeep', 4)
PARTHREE = ('ParThree', 'Par', 'ParThree', 4)
SET = ('SettingsMC', 'SettingsMC', 'SettingsMC', 2)
HOST = ('Hostile', 'Hostile', 'HostileMC', 2)
HOSTDEEP = ('HostileDeep', 'Hostile', 'HostileDeep', 4)
SETDEEP = ('SettingsDeep', 'SettingsMC', 'SettingsDeep', 6)
COMP = ('ComposeMC', 'ComposeMC', 'ComposeMC', 3)
MEMO = ('Memo', 'Memo', 'MemoMC')
REUSE = ('Reuse', 'Reuse', 'Reuse')
REUSEDEEP = ('ReuseDeep', 'Reuse', 'ReuseDeep', 2)
LEAVE = ('LeaveMC', 'Leave', 'LeaveMC')
LEAVEDEEP = ('LeaveDeep', 'Leave', 'LeaveDeep')
OBJ = ('ObjectsMC', 'ObjectsMC', 'ObjectsMC')
REP = ('ReportMC', 'ReportMC', 'ReportMC')
DELIV = ('Deliver', 'Deliver', 'DeliverMC')
DELIVDEEP = ('DeliverDeep', 'Deliver', 'DeliverDeep', 2)
REPL = ('Replace', 'Replace', 'ReplaceMC')
REPLANY = ('ReplaceAny', 'Replace', 'ReplaceAny', 3)
REPLDEEP = ('ReplaceDeep', 'Replace', 'ReplaceDeep', 4)
PROTO = ('ProtocolMC', 'ProtocolMC', 'ProtocolMC', 4)
PROTODEEP = ('ProtocolDeep', 'ProtocolMC', 'ProtocolDeep', 6)
OBJDEEP = ('ObjectsDeep', 'ObjectsMC', 'ObjectsDeep', 6)
COMPDEEP = ('ComposeDeep', 'ComposeMC', 'ComposeDeep', 6)
HDRDEEP = ('HeaderDeep', 'HeaderMC', 'HeaderDeep', 4)

ASSUMPTIONS = [
    'python-blosc 1.11.4, zlib, hashlib, json and numpy are trusted',
    'the operating system stores what is written to a file in the scratch directory',
    'content is compared by length and a 46 bit homomorphic fingerprint, '
    'containers by a truncated SHA-256',
]

CHECKS = {
    'C01': dict(clauses=['C01'], gens=[g.roundtrip, g.corners, g.many_chunks, g.big, g.literal_sizes,
                                       g.settings_grid, g.looks, g5.PLAIN, g7.plain_lives],
                mc=[GEO], need={'pack.ok': 200, 'mempack.ok': 20, 'unpack.ok': 400}),
    'C02': dict(clauses=['C02'], gens=[g.roundtrip, g.corners, g.many_chunks, g.big, g.literal_sizes,
                                       g.settings_grid, g.append_histories, g2.chunkings, g2.capacities,
                                       g5.CONTAINER, g7.lives],
                mc=[GEO], histories=['OpsGeo'], need={'pack.ok': 200, 'append.ok': 100}),
    'C03': dict(clauses=['C03', 'C04.padding', 'C04.digest'],
                gens=[g.roundtrip, g.many_chunks, g.big, g.settings_grid, g.metadata, g.append_histories,
                      g.rewrite_histories, g.huge, g5.LAYOUT, g7.lives, g17.shrunk],
                mc=[GEO, META], histories=['OpsGeo', 'OpsMeta'],
                need={'pack.ok': 200, 'append.ok': 100, 'rewrite.ok': 50, 'hugeappend.ok': 3}),
    'C04': dict(clauses=['C04'], gens=[g.metadata, g.settings_grid, lambda x: g.roundtrip(x, 100, meta=1), g5.META, g7.lives, g17.odd],
                mc=[META], need={'pack.ok': 150, 'pack.err': 5, 'unpack.ok': 200, 'odd.ok': 60, 'odd.err': 100}),
    'C05': dict(clauses=['C05'], gens=[g.append_histories, g.append_deep, g.append_many,
                                       g.append_arguments, g.append_last_slots, g.huge, g5.GROW, g7.lives, g9.null_metadata, g17.shrunk],
                mc=[GEO], histories=['OpsGeo'], need={'append.ok': 300, 'append.err': 20, 'unpack.ok': 500}),
    'C06': dict(clauses=['C06'], gens=[g.refusals, g.append_arguments, g.rewrite_histories,
                                       g.append_histories, g.damage, g5.REFUSE, g7.lives, g17.odd, g17.reuse],
                mc=[GEO, META, REUSE], mc_thorough=[REUSEDEEP], histories=['OpsGeo', 'OpsMeta', 'Reuse', 'ReuseDeep'],
                need={'append.err': 100, 'rewrite.err': 100, 'reuse.err': 500}),
    'C07': dict(clauses=['C07'], gens=[g.rewrite_histories, g.rewrite_sizes, g5.REWRITE, g6.equal_metadata, g7.lives, g9.null_metadata, g17.odd],
                mc=[META], histories=['OpsMeta'], need={'rewrite.ok': 150, 'rewrite.err': 50, 'odd.ok': 60, 'odd.err': 100}),
    'C08': dict(clauses=['C08'], gens=[g.damage, g.damage_exhaustive, g5.DAMAGE, g6.memory_damage,
                                       g6.array_damage, g6.command_damage, g6.wiped, g7.damaged_lives, g9.hurt_ones],
                mc=[GEO], need={'damage': 500, 'unpack.err': 300, 'append.err': 20}),
    'C09': dict(clauses=['C09'], gens=[g.truncation, g.truncation_exhaustive, g5.TRUNC, g6.array_truncation,
                                       g6.command_truncation, g7.truncated_lives, g9.hurt_ones],
                mc=[GEO], need={'trunc': 1000, 'unpack.err': 1000}),
    'C10': dict(clauses=['C10'], gens=[g.crash_packs, g7.interrupted_packs], mc=[STORE, TORN], histories=['Store'],
                need={'crash.ok': 10, 'crash.err': 1000, 'pack.ok': 60}),
    'C11': dict(clauses=['C11'], gens=[g.crash_appends, g7.interrupted_appends], mc=[STORE, TORN], histories=['Store'],
                need={'crash.ok': 1, 'crash.err': 1000, 'append.ok': 60}),
    'C12': dict(clauses=['C12'], gens=[g2.arrays, g2.array_types, g2.array_sizes, g2.described_arrays, g5.ARRAYS, g7.array_lives],
                mc=[ND], mc_thorough=[NDDEEP], histories=['NdarrayMC'],
                need={'ndpack.ok': 500, 'ndpack.err': 30, 'ndunpack.ok': 900}),
    'C13': dict(clauses=['C13'], gens=[g2.not_arrays, g2.described_arrays, g2.array_histories, g2.array_types, g5.NOTARRAYS],
                mc=[ND], mc_thorough=[NDDEEP],
                need={'ndunpack.err': 400, 'ndunpack.ok': 300, 'ndpack.err': 50}),
    'C14': dict(clauses=['C14'], gens=[g3.command_histories, g3.odd_commands, g3.bad_options, g3.damaged_commands,
                                       lambda x: g3.append_commands(x, 50), g5.COMMANDS],
                mc=[CLI, DOM], mc_thorough=[CLIDEEP], histories=['CliMC', 'DomainMC'],
                need={'cmd.ok': 500, 'cmd.err': 800}),
    'C15': dict(clauses=['C15'], gens=[g3.compress_options, g3.info_commands, g3.append_commands, g3.append_same, g5.COMMANDS],
                mc=[CLI], need={'cmd.ok': 1200, 'cmd.err': 100}),
    'C16': dict(clauses=['C16'], gens=[g2.header_items, g2.foreign], mc=[HDR], mc_thorough=[HDRDEEP],
                histories=['HeaderMC'], need={'headers': 50, 'sethdr': 35, 'unpack.err': 250, 'append.err': 60}),
    'C17': dict(clauses=['C17', 'C02.chunking', 'C02.capacity'], gens=[g2.domains, g2.chunkings, g2.capacities],
                mc=[DOM], mc_thorough=[DOMDEEP], histories=['DomainMC'],
                need={'dom.ok': 500, 'dom.err': 1000, 'chunking': 5, 'capacity': 3}),
    'C18': dict(clauses=['C18'], gens=[g4.sessions, g4.long_sessions, g11.twins_in_a_process, g17.reuse], mc=[SESS, MEMO, REUSE], mc_thorough=[SESSDEEP],
                histories=['SessionMC', 'Reuse'], need={'pack.ok': 500, 'append.ok': 200, 'ndpack.ok': 200, 'unpack.ok': 200,
                                               'disturb.err': 300}),
    'C19': dict(clauses=['C19'], gens=[g4.levels, g4.level_commands, g4.messages, g4.threads], mc=[VERB], mc_thorough=[VERBDEEP],
                histories=['VerbosityMC'], need={'talk': 250, 'log': 400, 'pack.ok': 400, 'cmd.ok': 400, 'unpack.err': 50}),
    'C20': dict(clauses=['C20'], gens=[g4.pairs, g4.triples, g4.more_pairs, g4.twins], mc=[PAR, PARTRIPLES], mc_thorough=[PARDEEP, PARTHREE],
                histories=['ParMC', 'ParTriples', 'ParDeep', 'ParThree'], need={'par': 1000, 'pack.ok': 300, 'unpack.ok': 300, 'append.ok': 300, 'rewrite.ok': 300}),
    'C21': dict(clauses=['C21'], gens=[g4.routes, g4.legal_edges, g4.array_routes, g7.routed_lives], mc=[ROUTES], mc_thorough=[ROUTESDEEP],
                histories=['RoutesMC', 'RoutesDeep'], need={'pack.ok': 800, 'mempack.ok': 200, 'unpack.ok': 500, 'unpack.err': 300, 'append.ok': 150,
                                                            'append.err': 150, 'dom.err': 200, 'ndpack.ok': 200, 'ndunpack.ok': 200, 'ndunpack.err': 100}),
    'C22': dict(clauses=['C22'], gens=[g.streaming, g7.streamed_lives], mc=[STORE, TORN],
                need={'io': 80, 'iochunks': 50, 'append.ok': 50}),
    'C23': dict(clauses=['C23'], gens=[g.append_histories, g.append_deep, g.append_many, g.refusals,
                                       g.append_last_slots, g5.GROW, g7.lives],
                mc=[GEO], histories=['OpsGeo'], need={'append.ok': 300, 'append.err': 50}),
    'C24': dict(clauses=['C24'], gens=g8.SETTINGS, mc=[SET], mc_thorough=[SETDEEP], histories=['SettingsMC'],
                need={'pack.ok': 500, 'mempack.ok': 50, 'append.ok': 500, 'ndpack.ok': 30, 'cmd.ok': 100}),
    'C25': dict(clauses=['C25'], gens=g9.COMPOSED, mc=[COMP], mc_thorough=[COMPDEEP], histories=['ComposeMC'],
                need={'compose.ok': 800, 'unpack.ok': 2000, 'append.ok': 200, 'ndunpack.ok': 40, 'cmd.ok': 400, 'rewrite.ok': 20}),
    'C26': dict(clauses=['C26'], gens=g10.OBJECTS, mc=[OBJ], mc_thorough=[OBJDEEP], histories=['ObjectsMC'],
                need={'obj.ok': 1000, 'obj.err': 300}),
    'C27': dict(clauses=['C27'], gens=g12.DRIVEN, mc=[PROTO], mc_thorough=[PROTODEEP], histories=['ProtocolMC'],
                need={'drive.ok': 1000, 'drive.err': 500, 'unpack.ok': 100}),
    'C30': dict(clauses=['C30'], gens=g15.DELIVERED, mc=[DELIV], mc_thorough=[DELIVDEEP], histories=['Deliver'],
                need={'deliver.ok': 150, 'deliver.err': 1500}),
    'C31': dict(clauses=['C31'], gens=g16.HOSTILE, mc=[HOST], mc_thorough=[HOSTDEEP], histories=['Hostile'],
                need={'hostile.ok': 100, 'hostile.err': 1500}),
    'C32': dict(clauses=['C32'], gens=[g18.leaves], mc=[LEAVE], mc_thorough=[LEAVEDEEP], histories=['LeaveMC', 'LeaveDeep'],
                need={'leave.ok': 200, 'leave.err': 1000}),
    'C29': dict(clauses=['C29'], gens=g14.REPLACED, mc=[REPL, REPLANY], mc_thorough=[REPLDEEP], histories=['Replace'],
                need={'replaced.err': 10000, 'rewrite.ok': 60}),
    'C28': dict(clauses=['C28'], gens=g13.TOLD, mc=[REP], need={'report.ok': 1500, 'sizes.ok': 20}),
}
