CHECKS = {f'S{i:02d}': ('resampling', f's{i:02d}') for i in (1, 2, 3)}
CHECKS.update({f'S{i:02d}': ('samplers', f's{i:02d}') for i in range(4, 15)})
CHECKS.update({f'D{i:02d}': ('sde', f'd{i:02d}') for i in range(1, 13)})
CHECKS.update({f'N{i:02d}': ('data', f'n{i:02d}') for i in (1, 2, 3, 4, 6, 9)})
CHECKS.update({f'N{i:02d}': ('nn', f'n{i:02d}') for i in (5, 7, 8, 10, 11)})
CHECKS['N12'] = ('nets', 'n12')
CHECKS['N13'] = ('loaders', 'n13')
CHECKS.update({f'X{i:02d}': ('experiments', f'x{i:02d}') for i in range(1, 9)})
