module verif/wf

go 1.22
