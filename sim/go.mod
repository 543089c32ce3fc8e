module verif.local/sim

go 1.24

require github.com/alexispb/mygosnmp v0.0.0

replace github.com/alexispb/mygosnmp => /repo
