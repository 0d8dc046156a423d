import model
print(model.build_extractor())
P = model.program()
print("%d units, %d functions" % (len(P.units), len(P.funcs)))
