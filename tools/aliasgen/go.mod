module verif.local/aliasgen

go 1.25
