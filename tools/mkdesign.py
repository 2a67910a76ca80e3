import sys,importlib,json
sys.path.insert(0,'/verif/engine'); sys.path.insert(0,'/verif')
props={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
how={
'C01':("panic obligations of every analysed function","no panic: the failing side of each overflow check, index, slice, unwrap, char boundary, library precondition must be infeasible","rows: every presence/null mask for ≤4 columns, one of 40 columns; GTID sets ≤7 intervals; metadata block also cut short at every byte; the rest unbounded","55–70 s; ~7 000 entry points (instances), ~58 000 obligations"),
'C02':("allocation obligations (with_capacity, reserve, vec![x;n], resize, repeat, vectors filled by loops)","size ≥ 2^24 elements must be infeasible while every buffer at hand is ≤ 2^16 bytes","as C01","60 s"),
'C03':("every loop summary needs a ranking argument","a repetition that may leave every counter, position and measure unchanged is a violation; lack of an argument is undecided","as C01; assumes reads of the peer end","60 s"),
'C04':("packet log of session set-up against an arbitrary server, coupled with a reference protocol","order of exchanges, outcome after each reply","reply loops coupled for any number of replies","20–40 s"),
'C05':("packet_channel read/write on an arbitrary socket","framing as terms over body, number, received bytes","none (any length)","<10 s"),
'C06':("same analysis as C04","sequence number of each packet sent","as C04","20–40 s"),
'C07':("information flow: occurrences of the password in the terms of packets, messages and prints","each occurrence must lie under a digest which covers the nonce, or under RSA encryption","as C04; client without TLS","20–40 s"),
'C08':("same analysis as C04, digests uninterpreted","proof bytes = reference term","any password and nonce","20–40 s"),
'C09':("same analysis as C04","bytes of the handshake response, fields of the greeting, provider kind","any greeting","20–40 s"),
'C10':("dispatcher with decoders replaced by arbitrary results","256 codes × decoder, arguments, variant","none","<10 s"),
'C11':("fixed-layout decoders on arbitrary payload","reference layout, Ok iff every field present and text UTF-8","none","10 s"),
'C12':("dispatcher + format description decoder","bytes handed to the decoder, mode left behind","none","10 s"),
'C13':("dispatcher + rows decoders","table definitions after each event, lookup by table id","map treated as an arbitrary map","20 s"),
'C14':("rows, row, bitmap and count decoders by contract one inside the other","loops coupled with reference loops: position, skipped count, cells after each repetition","any number of rows/columns; bitmaps 0–33 bits","30–60 s"),
'C15':("table map decoder + column metadata","reference; repetition coupled with the reference one","any number of columns; bitmaps at several sizes","20 s"),
'C16':("cell decoder per type code and per metadata value","value and bytes consumed","metadata servers can send","40 s"),
'C17':("decimal decoder once per (precision, scale)","every digit of the text as a function of the bytes","all of 1..65 × allowed scales; digit groups below 10^n","60–100 s"),
'C18':("metadata decoder: one entry of each type, each pair of types, all types in order","reference decoding, entry by entry","further entries: contents of 0–2 bytes","60–150 s"),
'C19':("BinlogClient::commit over all reachable client states (fixpoint from the constructor)","saved name and position","any history: states explored until no new one appears","30 s"),
'C20':("as C19, next to the reference's open transaction","additions to the saved GTID positions","any history; not both providers' GTIDs in one","40 s"),
'C21':("as C04","bytes of dump, registration and connect-state requests","data length and sets coupled for any count; see limits","60 s"),
'C22':("as C04, plus histories of commits and reconnects","order of set-up, state cleared, start position, stream returned","any history","40 s"),
'C23':("UuidSet::add_gtid on 0–9 intervals with arbitrary bounds","canonical union","≤9 intervals","30–60 s"),
'C24':("printers/parsers on texts of symbolic numbers and separators; wire forms","meaning of the text","≤4 entries, ≤3 intervals per server; numbers arbitrary","60–120 s"),
'C25':("GtidList::add_gtid on 0–8 entries; list event; text","replace in place or append","≤8 entries when adding, ≤4 in texts; any number in events","20 s"),
'C26':("BinlogReader on an arbitrary file","bytes per event, item, end","none","10 s"),
'C27':("BinlogEvents::next on an arbitrary packet","item, packets consumed, state","none","10 s"),
'C28':("length-encoded readers, rows, result sets","reference reader, loops coupled","none","20 s"),
'C29':("as C04 per TLS mode and capability set","order TLS request / upgrade / response; error before any packet","none","20–40 s"),
'C30':("heartbeat command, channel constructor","arithmetic terms over the interval","none","10 s"),
'C31':("dispatcher, decoders arbitrary","state after an error = state before","none","10 s"),
'C32':("error packet parser; session paths on which a reply starts with 0xFF","error text depends on code, state, message of that packet","none","30 s"),
}
catch={}
import os
for b in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%b)); catch.setdefault(m['property'],[]).append(b)
missed=json.load(open('/verif/tools/missed.json'))
o=[]
w=o.append
w(open('/verif/tools/design_head.md').read())
w("## Properties, one by one\n\n`seeded` names the planted changes for the property (in brackets: not caught by the property's own check).\n")
w("| id | property | what is analysed | oracle / rule | bounds | cost | seeded |\n|---|---|---|---|---|---|---|")
for p in sorted(props):
    a,b,c,d=how[p]
    s=" ".join(("[%s]"%x if x in missed else x) for x in catch.get(p,[]))
    w("| %s | %s | %s | %s | %s | %s | %s |"%(p,props[p]['title'],a,b,c,d,s))
w("")
w(open('/verif/tools/design_tail.md').read())
open('/verif/DESIGN.md','w').write("\n".join(o))
