from checks.rows import *
import checks.events as EV
META = dict(
    explanation="The event dispatcher is abstractly interpreted over its MIR for an arbitrary header, payload and parser state (decoders replaced by arbitrary results): the table definitions after it and the definitions handed to each rows decoder are compared with the required ones. The three rows decoders are analysed for an arbitrary payload and arbitrary definitions, and their result is compared with the one obtained from the definition stored under the event's table id.",
    rule="definitions' = definitions + {id: event} for a decoded table map, unchanged otherwise; rows decode with definitions[table id of the event], error when there is none",
    assumptions=ASSUME + ["std HashMap behaves as a map"])
def run(env):
    EV.dispatch(env, "tables")
    for kind in KIND:
        for v in (1, 2): ob_rows_event(env, kind, v)
