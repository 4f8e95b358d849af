------------------------------ MODULE MCSlots ------------------------------
EXTENDS Slots
MCSizes == <<1, 2, 3>>
MCSmall == <<1, 2>>
=============================================================================
