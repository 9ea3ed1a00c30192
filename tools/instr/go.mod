module instr

go 1.25
