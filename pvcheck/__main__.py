from pvcheck import runner
runner.entry()
