import json,importlib,sys,os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,ROOT+'/checks'); os.chdir(ROOT)
T={
'C01':('decoded-literal monitor: rendered values lexed by independent dialect lexers, SQLite read-back','Every string of a hostile generator in every value position and dialect is decoded from the rendered text and compared; SQLite reads it back.'),
'C02':('decoded-literal monitor over typed values, SQLite read-back','Every rendered literal of generated non-string values is decoded and compared with the Python value.'),
'C03':('identifier-path monitor: rendered names lexed by independent dialect lexers, SQLite read-back','Every name in every name position is decoded back to its path; nothing may appear outside identifier quotes.'),
'C04':('online guard automaton over call histories','A two-state automaton per query follows the history and demands the exception or the statement.'),
'C05':('SQLite execution against a three-valued evaluator, plus parsed condition against the model','Rows returned by SQLite compared with a Python three-valued evaluation; structure compared in four dialects.'),
'C06':('differential monitor over calling styles, against the reference model','Same content in every calling style must parse to the same model; shapes that do not fit must raise.'),
'C07':('trace monitor with interleaved observations, argument snapshots and hash seeds','Twins with and without observations must render alike; arguments are snapshotted; several interpreters with other hash seeds.'),
'C08':('per-query shadow state over many live queries','After every call, all other live queries must still render what their shadow says.'),
'C09':('pairwise equality monitor against model difference','Equality of pairs of queries compared with the difference of their models.'),
'C10':('shadow-state monitor: parsed SELECT against the reference model','Histories of SELECT calls; parsed statement equals the model.'),
'C11':('shadow-state monitor of INSERT and SQLite execution of stored rows','Parsed INSERT equals the model; SQLite stores exactly the rows. One known finding (PostgreSQL upsert without SET, pinned by a test) is reported.'),
'C12':('shadow-state monitor of joins and SQLite execution against a relational model','Parsed joins equal the model; SQLite rows equal a Python nested-loop join.'),
'C13':('SQLite execution of nested queries and unions against a relational model, plus parsed structure','Union trees and subqueries evaluated by SQLite and by Python sets/bags.'),
'C14':('online monitor of configure histories','Each render parsed in the dialect configured at that moment and compared with the model.'),
'C15':('argument-type matrix with fault monitor (exceptions and text)','Position x type matrix and pairs, plus random histories; refused or rendered as a proper literal, never raw.'),
'C16':('shadow-state monitor of SQL functions','Parsed function calls equal the model over histories and positions of use.'),
'C17':('monitor of has() against the parsed statement','Answers compared with the clauses of the parsed rendered text.'),
'C18':('controlled thread scheduler (line and opcode preemption) with sequential-result oracle','Random, PCT and preemption schedules at lines/opcodes, and free-running threads; results equal those alone.'),
'C19':('shadow-state monitor of UPDATE/DELETE and SQLite execution against a table model','Parsed statements equal the model; whole database contents compared after each executed statement.'),
'C20':('differential monitor of custom SQL: harmless against hostile texts in every position, against the reference model','Statements with hostile custom texts must equal those with harmless ones, parsed and compared with the model, but for these texts.'),
}
m={"version":1,"setup_cmd":"true","checks":[],"not_applicable":[]}
for k,(t,n) in T.items():
    c=k.lower(); mod=importlib.import_module(c)
    m['checks'].append(dict(property=k,quick_cmd='/opt/venv/bin/python checks/%s.py quick'%c,thorough_cmd='/opt/venv/bin/python checks/%s.py thorough'%c,
      evidence_file='evidence/%s.json'%k,technique='runtime monitoring: '+t,level='exploration',
      level_note=n+' Covers the executions generated (%d cases quick, %d thorough), not all; trusts the oracle code in lib/. Assumes: %s.'%(mod.QUICK,mod.THOROUGH,'; '.join(getattr(mod,'ASSUMPTIONS',[])) or 'nothing further')))
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False)
