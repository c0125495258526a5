// ---------------------------------------------------------------- lowering LLVM IR to the interpreter's form
using namespace llvm;
static const DataLayout *DL;
static int g_nbb = 0;
static std::vector<int> bbOwner;

struct Leaf { Type *t; u64 off; };
static void leaves(Type *t, std::vector<Leaf> &out, u64 off = 0)
{
	if(auto *s = dyn_cast<StructType>(t)) { const StructLayout *L = DL->getStructLayout(s); for(unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), out, off + L->getElementOffset(i)); return; }
	if(auto *a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for(u64 i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), out, off + i * es); return; }
	if(auto *v = dyn_cast<FixedVectorType>(t)) { u64 es = DL->getTypeStoreSize(v->getElementType()); for(u64 i = 0; i < v->getNumElements(); i++) leaves(v->getElementType(), out, off + i * es); return; }
	out.push_back({t, off});
}
static int slotsOf(Type *t)
{
	if(t->isVoidTy()) return 0;
	if(!t->isAggregateType() && !t->isVectorTy()) return 1;
	std::vector<Leaf> l; leaves(t, l); return l.size();
}
static unsigned widthOf(Type *t)
{
	if(t->isPointerTy()) return 64;
	if(t->isIntegerTy()) return t->getIntegerBitWidth();
	if(t->isFloatTy()) return 32;
	if(t->isDoubleTy()) return 64;
	if(t->isX86_FP80Ty()) return 80;
	if(t->isHalfTy()) return 16;
	if(t->isFP128Ty()) return 128;
	return 0;
}
// 0 int, 1 float, 2 double, 3 x86_fp80
static unsigned fpKind(Type *t) { return t->isFloatTy() ? 1 : t->isDoubleTy() ? 2 : t->isX86_FP80Ty() ? 3 : 0; }

static std::unordered_map<const GlobalValue *, u64> gvAddr;
static std::unordered_map<const Function *, int> fnIdx;
static u64 gvAddress(const GlobalValue *g)
{
	auto it = gvAddr.find(g); if(it != gvAddr.end()) return it->second;
	if(auto *al = dyn_cast<GlobalAlias>(g)) { const GlobalObject *o = al->getAliaseeObject(); if(o) return gvAddr[g] = gvAddress(o); }
	fprintf(stderr, "sx: unknown global %s\n", g->getName().str().c_str()); exit(3);
}

static Val apVal(const APInt &a) { Val v{0,0,nullptr}; const uint64_t *p = a.getRawData(); v.lo = p[0]; if(a.getNumWords() > 1) v.hi = p[1]; if(a.getBitWidth() < 64) v.lo &= maskw(a.getBitWidth()); return v; }

static void constVal(const Constant *c, std::vector<Val> &out);
static u64 constScalar(const Constant *c) { std::vector<Val> v; constVal(c, v); return v[0].lo; }
static void constVal(const Constant *c, std::vector<Val> &out)
{
	if(auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back(apVal(ci->getValue())); return; }
	if(auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(apVal(cf->getValueAPF().bitcastToAPInt())); return; }
	if(isa<ConstantPointerNull>(c)) { out.push_back(V(0)); return; }
	if(isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { int n = slotsOf(c->getType()); for(int i = 0; i < n; i++) out.push_back(V(0)); return; }
	if(auto *g = dyn_cast<GlobalValue>(c)) { out.push_back(V(gvAddress(g))); return; }
	if(auto *ds = dyn_cast<ConstantDataSequential>(c)) { for(unsigned i = 0; i < ds->getNumElements(); i++) constVal(ds->getElementAsConstant(i), out); return; }
	if(isa<ConstantAggregate>(c)) { for(unsigned i = 0; i < c->getNumOperands(); i++) constVal(cast<Constant>(c->getOperand(i)), out); return; }
	if(auto *ce = dyn_cast<ConstantExpr>(c))
	{
		unsigned w = widthOf(ce->getType());
		if(auto *gep = dyn_cast<GEPOperator>(ce))
		{
			APInt off(64, 0); u64 b = constScalar(cast<Constant>(gep->getPointerOperand()));
			if(gep->accumulateConstantOffset(*DL, off)) { out.push_back(V(b + off.getZExtValue())); return; }
			// fall back: manual with constant index expressions
			u64 o = 0; 
			for(auto ti = gep_type_begin(gep), te = gep_type_end(gep); ti != te; ++ti)
			{
				u64 ix = constScalar(cast<Constant>(ti.getOperand())); unsigned iw = widthOf(ti.getOperand()->getType());
				if(StructType *st = ti.getStructTypeOrNull()) o += DL->getStructLayout(st)->getElementOffset(ix);
				else o += (u64)sx(ix, iw) * DL->getTypeAllocSize(ti.getIndexedType());
			}
			out.push_back(V(b + o)); return;
		}
		std::vector<Val> k; for(unsigned i = 0; i < ce->getNumOperands(); i++) constVal(cast<Constant>(ce->getOperand(i)), k);
		switch(ce->getOpcode())
		{
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: out.push_back(V(k[0].lo & maskw(w))); return;
		case Instruction::SExt: out.push_back(V((u64)sx(k[0].lo, widthOf(ce->getOperand(0)->getType())) & maskw(w))); return;
		case Instruction::Add: out.push_back(V((k[0].lo + k[1].lo) & maskw(w))); return;
		case Instruction::Sub: out.push_back(V((k[0].lo - k[1].lo) & maskw(w))); return;
		case Instruction::Mul: out.push_back(V((k[0].lo * k[1].lo) & maskw(w))); return;
		case Instruction::And: out.push_back(V((k[0].lo & k[1].lo) & maskw(w))); return;
		case Instruction::Or: out.push_back(V((k[0].lo | k[1].lo) & maskw(w))); return;
		case Instruction::Xor: out.push_back(V((k[0].lo ^ k[1].lo) & maskw(w))); return;
		case Instruction::ICmp:
		{
			bool r = false; u64 a = k[0].lo, b = k[1].lo;
			switch(ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; default: break; }
			out.push_back(V(r)); return;
		}
		case Instruction::Select: out.push_back(k[0].lo ? k[1] : k[2]); return;
		default: break;
		}
		fprintf(stderr, "sx: unsupported constant expression %s\n", ce->getOpcodeName()); exit(3);
	}
	fprintf(stderr, "sx: unsupported constant\n"); exit(3);
}

// write initialiser into arena (raw host writes, then mark init)
static void writeConst(const Constant *c, u64 a)
{
	Type *t = c->getType();
	std::vector<Leaf> l; leaves(t, l);
	if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // memory is zero
	std::vector<Val> v; constVal(c, v);
	for(size_t i = 0; i < l.size(); i++)
	{
		unsigned n = (widthOf(l[i].t) + 7) / 8; Val x = v[i];
		memcpy((void *)(a + l[i].off), &x, n > 16 ? 16 : n);
	}
}

static std::unordered_map<std::string, int> fileIdx; static std::unordered_map<const DISubprogram *, int> spIdx; static std::map<std::vector<int>, int> lineIdx;
static int fileOf(const DIFile *f)
{
	if(!f) return -1;
	std::string n = f->getFilename().str(); if(n.empty() || n[0] != '/') n = f->getDirectory().str() + "/" + n;
	auto it = fileIdx.find(n); if(it != fileIdx.end()) return it->second;
	int i = files.size(); files.push_back(n); fileIdx[n] = i; return i;
}
static int spOf(const DISubprogram *sp)
{
	if(!sp) return -1;
	auto it = spIdx.find(sp); if(it != spIdx.end()) return it->second;
	std::string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
	size_t p = n.find('('); // drop argument list
	if(p != std::string::npos && p > 0 && n.compare(p, 11, "(anonymous ") != 0) n = n.substr(0, p);
	int i = subprogs.size(); subprogs.push_back(n); spFile.push_back(fileOf(sp->getFile())); spLine.push_back(sp->getLine()); spLink.push_back(sp->getLinkageName().str()); spIdx[sp] = i; return i;
}
static int lineOf(const DILocation *d)
{
	if(!d) return 0;
	int par = d->getInlinedAt() ? lineOf(d->getInlinedAt()) : -1;
	int f = fileOf(d->getFile()), sp = spOf(d->getScope()->getSubprogram());
	std::vector<int> key{f, (int)d->getLine(), par, sp};
	auto it = lineIdx.find(key); if(it != lineIdx.end()) return it->second;
	int i = lines.size(); lines.push_back({f, (int)d->getLine(), par, sp}); lineIdx[key] = i; return i;
}

static int extIndex(const std::string &name);

struct FnLower {
	const Function &F; Fn &f; std::unordered_map<const Value *, int> slot; std::unordered_map<const Constant *, int> cslot; std::unordered_map<const BasicBlock *, int> bbPc; std::unordered_map<const BasicBlock *, int> bbId;
	std::vector<std::pair<int, const BasicBlock *>> fix; int curLine = 0;
	FnLower(const Function &F_, Fn &f_) : F(F_), f(f_) {}
	int newSlots(int n) { int s = f.nregs; f.nregs += n; return s; }
	int operand(const Value *v)
	{
		if(auto *c = dyn_cast<Constant>(v))
		{
			auto it = cslot.find(c); if(it != cslot.end()) return it->second;
			int base = f.consts.size(); std::vector<Val> k; constVal(c, k);
			for(auto &x : k) f.consts.push_back(x);
			return cslot[c] = -1 - base;
		}
		auto it = slot.find(v);
		if(it == slot.end()) { int s = newSlots(slotsOf(v->getType())); slot[v] = s; return s; }
		return it->second;
	}
	static int lane(int op, int k) { return op >= 0 ? op + k : op - k; }
	Inst &emit(Opc op) { Inst i; memset(&i, 0, sizeof i); i.op = op; i.dst = -1; i.line = curLine; f.code.push_back(i); return f.code.back(); }
	void mov(int d, int s) { Inst &i = emit(I_MOV); i.dst = d; i.a = s; }
	int constOp(u64 v) { f.consts.push_back(V(v)); return -(int)f.consts.size(); }

	int edge(const BasicBlock *from, const BasicBlock *to)
	{
		Edge e; e.c0 = f.copies.size();
		for(const PHINode &p : to->phis())
		{
			int n = slotsOf(p.getType()), d = operand(&p), s = operand(p.getIncomingValueForBlock(from));
			if(isa<UndefValue>(p.getIncomingValueForBlock(from))) { }
			for(int k = 0; k < n; k++) f.copies.push_back({d + k, lane(s, k)});
		}
		e.cn = f.copies.size() - e.c0; e.target = -1;
		f.edges.push_back(e);
		fix.push_back({(int)f.edges.size() - 1, to});
		return f.edges.size() - 1;
	}
	void unsup(const Instruction &I, const char *why = "")
	{
		std::string s; raw_string_ostream os(s); I.print(os);
		f.unsup.push_back(std::string(why) + " " + s); Inst &i = emit(I_UNSUP); i.imm = f.unsup.size() - 1;
	}
	void addr(Inst &, const Value *) {}

	void call(const CallBase &C)
	{
		const Value *callee = C.getCalledOperand()->stripPointerCasts();
		if(auto *al = dyn_cast<GlobalAlias>(callee)) callee = al->getAliaseeObject();
		const Function *cf = dyn_cast<Function>(callee);
		if(C.isInlineAsm()) { if(C.getType()->isVoidTy()) return; unsup(C, "asm"); return; }
		if(cf && cf->isIntrinsic())
		{
			switch(cf->getIntrinsicID())
			{
			case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
			case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::stackrestore:
				return;
			case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability:
				mov(operand(&C), operand(C.getArgOperand(0))); return;
			case Intrinsic::stacksave: mov(operand(&C), constOp(0)); return;
			default: break;
			}
		}
		std::vector<int> args, types;
		for(unsigned i = 0; i < C.arg_size(); i++)
		{
			const Value *a = C.getArgOperand(i); Type *t = a->getType();
			if(t->isMetadataTy() || t->isTokenTy()) continue;
			int o = operand(a);
			if(C.isByValArgument(i))
			{
				int tmp = newSlots(1); Inst &b = emit(I_ALLOCA); b.dst = tmp; b.imm = DL->getTypeAllocSize(C.getParamByValType(i)); b.a = o; b.flags = 2; b.w = 16; // flags 2: byval copy
				o = tmp;
			}
			std::vector<Leaf> l; leaves(t, l);
			for(size_t k = 0; k < l.size(); k++) { args.push_back(lane(o, k)); types.push_back(widthOf(l[k].t) | (fpKind(l[k].t) << 8)); }
		}
		int x0 = f.xs.size(); f.xs.insert(f.xs.end(), args.begin(), args.end()); f.xs.insert(f.xs.end(), types.begin(), types.end());
		int n = slotsOf(C.getType()), d = n ? operand(&C) : -1;
		bool vec = C.getType()->isVectorTy() && cf && cf->isIntrinsic();
		if(cf)
		{
			Inst &i = emit(I_CALL); i.imm = fnIdx[cf]; i.dst = d; i.ndst = n; i.x0 = x0; i.xn = args.size();
			std::vector<Leaf> l; if(n) leaves(C.getType(), l);
			i.w = n ? widthOf(l[0].t) : 0; i.sub = n ? fpKind(l[0].t) : 0; if(!i.sub && !types.empty()) i.sub = types[0] >> 8;
			if(vec) i.flags = 1;
		}
		else
		{
			int co = operand(C.getCalledOperand());
			Inst &i = emit(I_CALLI); i.a = co; i.dst = d; i.ndst = n; i.x0 = x0; i.xn = args.size();
		}
	}

	void binop(const Instruction &I, Opc op)
	{
		Type *t = I.getType(); Type *st = t->getScalarType(); int n = slotsOf(t), d = operand(&I), a = operand(I.getOperand(0)), b = operand(I.getOperand(1));
		for(int k = 0; k < n; k++) { Inst &i = emit(op); i.dst = d + k; i.a = lane(a, k); i.b = lane(b, k); i.w = widthOf(st); i.sub = fpKind(st); }
	}
	void castop(const Instruction &I, Opc op)
	{
		Type *t = I.getType(), *s = I.getOperand(0)->getType(); int n = slotsOf(t), d = operand(&I), a = operand(I.getOperand(0));
		for(int k = 0; k < n; k++) { Inst &i = emit(op); i.dst = d + k; i.a = lane(a, k); i.w = widthOf(t->getScalarType()); i.w2 = widthOf(s->getScalarType()); i.sub = fpKind(t->getScalarType()); i.flags = fpKind(s->getScalarType()); }
	}
	int aggIndex(Type *t, ArrayRef<unsigned> idx, Type **rt)
	{
		int o = 0;
		for(unsigned ix : idx)
		{
			if(auto *s = dyn_cast<StructType>(t)) { for(unsigned k = 0; k < ix; k++) o += slotsOf(s->getElementType(k)); t = s->getElementType(ix); }
			else { auto *a = cast<ArrayType>(t); o += ix * slotsOf(a->getElementType()); t = a->getElementType(); }
		}
		*rt = t; return o;
	}

	void inst(const Instruction &I)
	{
		switch(I.getOpcode())
		{
		case Instruction::Add: binop(I, I_ADD); break; case Instruction::Sub: binop(I, I_SUB); break; case Instruction::Mul: binop(I, I_MUL); break;
		case Instruction::UDiv: binop(I, I_UDIV); break; case Instruction::SDiv: binop(I, I_SDIV); break; case Instruction::URem: binop(I, I_UREM); break; case Instruction::SRem: binop(I, I_SREM); break;
		case Instruction::And: binop(I, I_AND); break; case Instruction::Or: binop(I, I_OR); break; case Instruction::Xor: binop(I, I_XOR); break;
		case Instruction::Shl: binop(I, I_SHL); break; case Instruction::LShr: binop(I, I_LSHR); break; case Instruction::AShr: binop(I, I_ASHR); break;
		case Instruction::FAdd: binop(I, I_FADD); break; case Instruction::FSub: binop(I, I_FSUB); break; case Instruction::FMul: binop(I, I_FMUL); break; case Instruction::FDiv: binop(I, I_FDIV); break; case Instruction::FRem: binop(I, I_FREM); break;
		case Instruction::FNeg: { int n = slotsOf(I.getType()), d = operand(&I), a = operand(I.getOperand(0)); for(int k = 0; k < n; k++) { Inst &i = emit(I_FNEG); i.dst = d + k; i.a = lane(a, k); i.w = widthOf(I.getType()->getScalarType()); i.sub = fpKind(I.getType()->getScalarType()); } break; }
		case Instruction::ICmp: case Instruction::FCmp:
		{
			Type *ot = I.getOperand(0)->getType()->getScalarType(); int n = slotsOf(I.getType()), d = operand(&I), a = operand(I.getOperand(0)), b = operand(I.getOperand(1));
			for(int k = 0; k < n; k++) { Inst &i = emit(I.getOpcode() == Instruction::ICmp ? I_ICMP : I_FCMP); i.dst = d + k; i.a = lane(a, k); i.b = lane(b, k); i.w = widthOf(ot); i.sub = cast<CmpInst>(I).getPredicate(); i.flags = fpKind(ot); }
			break;
		}
		case Instruction::Trunc: castop(I, I_TRUNC); break; case Instruction::ZExt: castop(I, I_ZEXT); break; case Instruction::SExt: castop(I, I_SEXT); break;
		case Instruction::FPTrunc: castop(I, I_FPTRUNC); break; case Instruction::FPExt: castop(I, I_FPEXT); break; case Instruction::FPToUI: castop(I, I_FPTOUI); break; case Instruction::FPToSI: castop(I, I_FPTOSI); break;
		case Instruction::UIToFP: castop(I, I_UITOFP); break; case Instruction::SIToFP: castop(I, I_SITOFP); break;
		case Instruction::PtrToInt: { unsigned w = widthOf(I.getType()); if(w < 64) castop(I, I_TRUNC); else if(w > 64) castop(I, I_ZEXT); else mov(operand(&I), operand(I.getOperand(0))); break; }
		case Instruction::IntToPtr: { unsigned w = widthOf(I.getOperand(0)->getType()); if(w < 64) castop(I, I_ZEXT); else if(w > 64) castop(I, I_TRUNC); else mov(operand(&I), operand(I.getOperand(0))); break; }
		case Instruction::BitCast:
		{
			int n = slotsOf(I.getType()), m = slotsOf(I.getOperand(0)->getType());
			if(n != m) { unsup(I, "bitcast"); break; }
			int d = operand(&I), s = operand(I.getOperand(0)); for(int k = 0; k < n; k++) mov(d + k, lane(s, k));
			break;
		}
		case Instruction::Freeze: { int n = slotsOf(I.getType()), d = operand(&I), s = operand(I.getOperand(0)); for(int k = 0; k < n; k++) mov(d + k, lane(s, k)); break; }
		case Instruction::Load:
		{
			std::vector<Leaf> l; leaves(I.getType(), l); int d = operand(&I), a = operand(I.getOperand(0));
			for(size_t k = 0; k < l.size(); k++) { Inst &i = emit(I_LOAD); i.dst = d + k; i.a = a; i.imm = l[k].off; i.w = widthOf(l[k].t); }
			break;
		}
		case Instruction::Store:
		{
			const Value *v = I.getOperand(0);
			std::vector<Leaf> l; leaves(v->getType(), l); int s = operand(v), a = operand(I.getOperand(1));
			for(size_t k = 0; k < l.size(); k++) { Inst &i = emit(I_STORE); i.a = a; i.b = lane(s, k); i.imm = l[k].off; i.w = widthOf(l[k].t); if(isa<UndefValue>(v)) i.flags = 1; }
			break;
		}
		case Instruction::GetElementPtr:
		{
			if(I.getType()->isVectorTy()) { unsup(I, "vector gep"); break; }
			auto *g = cast<GEPOperator>(&I); u64 off = 0; std::vector<std::array<int,3>> dyn;
			for(auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti)
			{
				const Value *ix = ti.getOperand();
				if(StructType *st = ti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
				u64 es = DL->getTypeAllocSize(ti.getIndexedType());
				if(auto *ci = dyn_cast<ConstantInt>(ix)) { off += (u64)ci->getSExtValue() * es; continue; }
				dyn.push_back({operand(ix), (int)es, (int)widthOf(ix->getType())});
			}
			int b = operand(g->getPointerOperand()), d = operand(&I);
			Inst &i = emit(I_GEP); i.dst = d; i.a = b; i.imm = off; i.x0 = f.xs.size(); i.xn = dyn.size();
			for(auto &x : dyn) { f.xs.push_back(x[0]); f.xs.push_back(x[1]); f.xs.push_back(x[2]); }
			break;
		}
		case Instruction::Alloca:
		{
			auto &A = cast<AllocaInst>(I); int n = operand(A.getArraySize()); int d = operand(&I);
			Inst &i = emit(I_ALLOCA); i.dst = d; i.a = n; i.imm = DL->getTypeAllocSize(A.getAllocatedType()); i.w = std::max<u64>(16, A.getAlign().value());
			break;
		}
		case Instruction::Select:
		{
			int n = slotsOf(I.getType()), d = operand(&I), c = operand(I.getOperand(0)), a = operand(I.getOperand(1)), b = operand(I.getOperand(2)); bool vc = I.getOperand(0)->getType()->isVectorTy();
			std::vector<Leaf> l; leaves(I.getType(), l);
			for(int k = 0; k < n; k++) { Inst &i = emit(I_SELECT); i.dst = d + k; i.a = vc ? lane(c, k) : c; i.b = lane(a, k); i.c = lane(b, k); i.w = widthOf(l[k].t); }
			break;
		}
		case Instruction::ExtractValue:
		{
			auto &E = cast<ExtractValueInst>(I); Type *rt; int o = aggIndex(E.getAggregateOperand()->getType(), E.getIndices(), &rt); int n = slotsOf(rt), d = operand(&I), s = operand(E.getAggregateOperand());
			for(int k = 0; k < n; k++) mov(d + k, lane(s, o + k));
			break;
		}
		case Instruction::InsertValue:
		{
			auto &E = cast<InsertValueInst>(I); Type *rt; int o = aggIndex(I.getType(), E.getIndices(), &rt); int n = slotsOf(rt), N = slotsOf(I.getType()), d = operand(&I), s = operand(E.getAggregateOperand()), v = operand(E.getInsertedValueOperand());
			for(int k = 0; k < N; k++) mov(d + k, k >= o && k < o + n ? lane(v, k - o) : lane(s, k));
			break;
		}
		case Instruction::ExtractElement:
		{
			auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); if(!ci) { unsup(I); break; }
			mov(operand(&I), lane(operand(I.getOperand(0)), ci->getZExtValue())); break;
		}
		case Instruction::InsertElement:
		{
			auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); if(!ci) { unsup(I); break; }
			int N = slotsOf(I.getType()), d = operand(&I), s = operand(I.getOperand(0)), v = operand(I.getOperand(1));
			for(int k = 0; k < N; k++) mov(d + k, k == (int)ci->getZExtValue() ? v : lane(s, k));
			break;
		}
		case Instruction::ShuffleVector:
		{
			auto &SV = cast<ShuffleVectorInst>(I); int a = operand(I.getOperand(0)), b = operand(I.getOperand(1)), d = operand(&I), n0 = slotsOf(I.getOperand(0)->getType());
			int zero = constOp(0); int k = 0;
			for(int m : SV.getShuffleMask()) { mov(d + k, m < 0 ? zero : m < n0 ? lane(a, m) : lane(b, m - n0)); k++; }
			break;
		}
		case Instruction::Br:
		{
			auto &B = cast<BranchInst>(I);
			if(B.isUnconditional()) { int e = edge(I.getParent(), B.getSuccessor(0)); Inst &i = emit(I_BR); i.a = e; }
			else { int c = operand(B.getCondition()); int e0 = edge(I.getParent(), B.getSuccessor(0)), e1 = edge(I.getParent(), B.getSuccessor(1)); Inst &i = emit(I_CONDBR); i.a = c; i.b = e0; i.c = e1; }
			break;
		}
		case Instruction::Switch:
		{
			auto &SW = cast<SwitchInst>(I); int c = operand(SW.getCondition()); int de = edge(I.getParent(), SW.getDefaultDest()); std::vector<std::pair<u64,int>> cs;
			for(auto &k : SW.cases()) cs.push_back({k.getCaseValue()->getZExtValue(), edge(I.getParent(), k.getCaseSuccessor())});
			Inst &i = emit(I_SWITCH); i.a = c; i.b = de; i.x0 = f.cases.size(); i.xn = cs.size(); i.w = widthOf(SW.getCondition()->getType());
			f.cases.insert(f.cases.end(), cs.begin(), cs.end());
			break;
		}
		case Instruction::Ret:
		{
			const Value *v = cast<ReturnInst>(I).getReturnValue(); int a = v ? operand(v) : 0, n = v ? slotsOf(v->getType()) : 0;
			Inst &i = emit(I_RET); i.a = a; i.xn = n; break;
		}
		case Instruction::Unreachable: emit(I_UNREACH); break;
		case Instruction::Call: call(cast<CallBase>(I)); break;
		case Instruction::Invoke: { call(cast<CallBase>(I)); int e = edge(I.getParent(), cast<InvokeInst>(I).getNormalDest()); Inst &i = emit(I_BR); i.a = e; break; }
		case Instruction::LandingPad: emit(I_LPAD); operand(&I); break;
		case Instruction::Resume: emit(I_RESUME); break;
		case Instruction::Fence: break;
		case Instruction::AtomicRMW:
		{
			auto &R = cast<AtomicRMWInst>(I); int d = operand(&I), a = operand(R.getPointerOperand()), b = operand(R.getValOperand());
			Inst &i = emit(I_RMW); i.dst = d; i.a = a; i.b = b; i.w = widthOf(I.getType()); i.sub = R.getOperation(); break;
		}
		case Instruction::AtomicCmpXchg:
		{
			int d = operand(&I), a = operand(I.getOperand(0)), b = operand(I.getOperand(1)), c = operand(I.getOperand(2));
			Inst &i = emit(I_CMPXCHG); i.dst = d; i.a = a; i.b = b; i.c = c; i.w = widthOf(I.getOperand(1)->getType()); break;
		}
		default: unsup(I, "op"); break;
		}
	}

	void run()
	{
		f.defined = true; f.vararg = F.isVarArg();
		for(auto &a : F.args()) { int n = slotsOf(a.getType()); int s = operand(&a); for(int k = 0; k < n; k++) f.argSlot.push_back(s + k); }
		f.nargs = f.argSlot.size();
		for(auto &B : F)
		{
			int id = g_nbb++; if(id >= MAXBB) { fprintf(stderr, "sx: too many basic blocks\n"); exit(3); }
			bbId[&B] = id; bbLines.emplace_back(); bbOwner.push_back(fnIdx[&F]);
			std::set<int> ls; for(auto &I : B) { if(isa<DbgInfoIntrinsic>(I)) continue; int l = lineOf(I.getDebugLoc().get()); while(l > 0) { ls.insert(l); l = lines[l].parent; } }
			bbLines.back().assign(ls.begin(), ls.end());
			bbPc[&B] = f.code.size();
			// block marker: I_MOV with dst -2
			{ Inst &m = emit(I_MOV); m.dst = -2; m.imm = id; }
			for(auto &I : B)
			{
				if(isa<PHINode>(I)) { operand(&I); continue; }
				curLine = lineOf(I.getDebugLoc().get());
				inst(I);
			}
			curLine = 0;
		}
		for(auto &p : fix) f.edges[p.first].target = bbPc[p.second];
	}
};

static u64 globAlloc(u64 size, u64 align)
{
	if(align < 16) align = 16;
	u64 a = (globTop + 32 + align - 1) & ~(align - 1);
	globTop = a + size; if(globTop > HEAP0) { fprintf(stderr, "sx: globals too large\n"); exit(3); }
	return a;
}

static std::vector<int> ctorFns; static int entryFn = -1;

static void lowerModule(const std::string &bc)
{
	LLVMContext *ctx = new LLVMContext(); SMDiagnostic err;
	std::unique_ptr<Module> M = parseIRFile(bc, err, *ctx);
	if(!M) { fprintf(stderr, "sx: cannot read %s: %s\n", bc.c_str(), err.getMessage().str().c_str()); exit(3); }
	DL = new DataLayout(M->getDataLayout());
	for(auto &F : *M)
	{
		int i = fns.size(); Fn *f = new Fn(); f->name = F.getName().str(); f->addr = FNBASE + (u64)i * 16; fns.push_back(f);
		fnIdx[&F] = i; fnByName[f->name] = i; gvAddr[&F] = f->addr;
	}
	std::vector<std::pair<const GlobalVariable *, u64>> gl;
	for(auto &G : M->globals())
	{
		if(G.getName().starts_with("llvm.")) continue;
		u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 8; if(!G.hasInitializer() && sz < 128) sz = 128; if(!sz) sz = 1;
		u64 a = globAlloc(sz, G.getAlign() ? G.getAlign()->value() : 16);
		gvAddr[&G] = a; globAddr[G.getName().str()] = a; gl.push_back({&G, sz});
	}
	for(auto &p : gl)
	{
		const GlobalVariable *G = p.first; u64 a = gvAddr[G];
		if(G->hasInitializer()) writeConst(G->getInitializer(), a);
		memset(&st(a), M_INIT | (G->isConstant() && G->hasInitializer() ? M_RO : 0), p.second);
	}
	if(auto *g = M->getNamedGlobal("llvm.global_ctors"))
		if(g->hasInitializer())
			if(auto *ca = dyn_cast<ConstantArray>(g->getInitializer()))
			{
				std::vector<std::pair<u64,int>> v;
				for(auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if(fn) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fnIdx[fn]}); }
				std::stable_sort(v.begin(), v.end(), [] (auto &a, auto &b) { return a.first < b.first; });
				for(auto &x : v) ctorFns.push_back(x.second);
			}
	for(auto &F : *M)
	{
		Fn *f = fns[fnIdx[&F]];
		if(F.isDeclaration()) { f->ext = extIndex(F.isIntrinsic() ? Intrinsic::getBaseName(F.getIntrinsicID()).str() : f->name); continue; }
		// functions we model natively even when defined
		int ex = -1;
		FnLower L(F, *f); L.run(); (void)ex;
	}
	auto it = fnByName.find(opt.entry); if(it == fnByName.end()) { fprintf(stderr, "sx: no entry function %s\n", opt.entry.c_str()); exit(3); }
	entryFn = it->second;
	// the LLVM objects are leaked on purpose only when small; drop them to keep forks cheap
	M.reset(); delete ctx;
	gvAddr.clear(); fnIdx.clear(); spIdx.clear(); lineIdx.clear(); fileIdx.clear();
	malloc_trim(0);
}
