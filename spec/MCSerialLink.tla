---- MODULE MCSerialLink ----
EXTENDS SerialLink
====
