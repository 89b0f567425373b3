"""Level and note per property, read by mkmanifest.py."""
NOTES = {
    'C10': ('proof', 'Every clause is a postcondition or exceptional '
            'postcondition of these functions; floats are idealised as '
            'reals.'),
    'C11': ('proof', 'validate() is proved equivalent to the stated '
            'conditions for any number of layers; that inconsistent models '
            'are refused before sampling is checked boundedly.'),
}
UNCLAIMED = {}
