SPECIFICATION PSpec
ALIAS PAlias
