-------------------------------- MODULE Values --------------------------------
(* Value types: exception codes (lib/src/messages/ExceptionType.cpp), unit and   *)
(* transaction identifiers, endpoints, loggers (lib/src/logging).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---- Modbus exception codes (Modbus application protocol, section 7)

Codes == {1, 2, 3, 4, 5, 6, 8, 10, 11}
CodeName == 1 :> "IllegalFunction" @@ 2 :> "IllegalDataAddress" @@ 3 :> "IllegalDataValue" @@ 4 :> "ServerDeviceFailure"
         @@ 5 :> "Acknowledge" @@ 6 :> "ServerDeviceBusy" @@ 8 :> "MemoryParityError" @@ 10 :> "GatewayPathUnavailable"
         @@ 11 :> "GatewayTargetDeviceFailedToRespond"
NameText == "IllegalFunction" :> "Illegal function" @@ "IllegalDataAddress" :> "Illegal data address"
         @@ "IllegalDataValue" :> "Illegal data value" @@ "ServerDeviceFailure" :> "Server device failure"
         @@ "Acknowledge" :> "Acknowledge" @@ "ServerDeviceBusy" :> "Server device busy"
         @@ "MemoryParityError" :> "Memory parity error" @@ "GatewayPathUnavailable" :> "Gateway path unavailable"
         @@ "GatewayTargetDeviceFailedToRespond" :> "Gateway target device failed to respond" @@ "Unknown" :> "Unknown"
Names == DOMAIN NameText
NameOfCode(c) == IF c \in Codes THEN CodeName[c] ELSE "Unknown"
CodeOfName(n) == CHOOSE c \in Codes : CodeName[c] = n

\* ---- identifiers

Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Hex(v, w) == LET RECURSIVE H(_, _)
                 H(x, k) == IF k = 0 THEN "" ELSE H(x \div 16, k - 1) \o Digit[(x % 16) + 1]
             IN "0x" \o H(v, w)
UidText(v) == Hex(v, 2)
TidText(v) == Hex(v, 4)
TidNext(v) == (v + 1) % 65536

\* ---- loggers: a sink, a name, and the thresholds it may have. 0 trace .. 5 critical

Levels == 0 .. 5
Info == 2
\* where a root logger of each kind writes: nowhere (null logger), to one destination, to the console, to two
SinksOf(k) == CASE k = 0 -> <<>> [] k = 4 -> <<1, 2>> [] OTHER -> <<k>>
NewLogger(k, name, level) == [sinks |-> SinksOf(k), name |-> name, th |-> {level}]
\* a clone writes to the same sink under its own name; without an explicit level, what it filters
\* is not documented: the default level or its parent's
CloneOf(lg, name, level) == [sinks |-> lg.sinks, name |-> name, th |-> IF level \in Levels THEN {level} ELSE lg.th \cup {Info}]
\* what one message may produce
Outputs(lg, level, text) ==
    {IF level >= t THEN [i \in DOMAIN lg.sinks |-> [s |-> lg.sinks[i], n |-> lg.name, l |-> level, x |-> text]] ELSE <<>> : t \in lg.th}
===============================================================================
