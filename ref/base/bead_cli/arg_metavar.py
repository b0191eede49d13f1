ENV        = 'DIRECTORY'
WORKSPACE  = 'DIRECTORY'
BEAD_REF   = 'BEAD-REF'
INPUT_NICK = 'INPUT-NAME'
BOX = 'BOX-NAME'
