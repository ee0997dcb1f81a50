module verif.local/overlay

go 1.27
