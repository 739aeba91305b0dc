"""Types of fields and parameters the source leaves unannotated (facts about the
interfaces, not about behaviour)."""
MAT = ('mat', 4, 4)
STDTYPES = {
    ('Transform', '_Transform__m'): MAT,
    ('Transform', '_Transform__m_inv'): MAT,
    ('arg', 'eps'): 'num',
}
