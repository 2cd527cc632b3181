// irdump: canonicalises an -O0 bitcode module and dumps every entry function as JSON.
//
//   irdump IN.bc PREFIX [KEEP] > OUT.json
//
// Entry functions are the external definitions whose name starts with PREFIX.  Everything that has a body is
// inlined into them (helpers, overloads and wrappers disappear), allocas are promoted (temporaries disappear),
// constant branches are folded (tag dispatch on `if (ThreadSafe)` disappears).  What stays is the control-flow
// graph over atomics, memory accesses and calls to declared-only functions.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include <map>
#include <set>

using namespace llvm;

static std::map< const Value*, std::string > ids;
static const DataLayout*                     DL;

static std::string tyStr( Type* t )
{
    if ( t->isPointerTy() )
        return "ptr";
    if ( auto* it = dyn_cast< IntegerType >( t ) )
        return "i" + std::to_string( it->getBitWidth() );
    if ( t->isVoidTy() )
        return "void";
    std::string        s;
    raw_string_ostream os( s );
    t->print( os );
    return os.str();
}

static int64_t bitsOf( Type* t )
{
    if ( t->isVoidTy() || !t->isSized() )
        return 0;
    return (int64_t)DL->getTypeSizeInBits( t ).getFixedValue();
}

static json::Value opnd( const Value* v );

static json::Value constOpnd( const Constant* c )
{
    if ( auto* ci = dyn_cast< ConstantInt >( c ) ) {
        SmallString< 40 > s;
        ci->getValue().toStringUnsigned( s );
        return json::Object { { "k", "c" }, { "v", s.str().str() }, { "w", (int64_t)ci->getBitWidth() } };
    }
    if ( isa< ConstantPointerNull >( c ) )
        return json::Object { { "k", "c" }, { "v", "0" }, { "w", 64 } };
    if ( isa< UndefValue >( c ) )
        return json::Object { { "k", "undef" }, { "w", bitsOf( c->getType() ) } };
    if ( auto* gv = dyn_cast< GlobalValue >( c ) )
        return json::Object { { "k", "g" }, { "v", gv->getName() } };
    if ( auto* ce = dyn_cast< ConstantExpr >( c ) ) {
        if ( ce->getOpcode() == Instruction::GetElementPtr ) {
            APInt off( 64, 0 );
            if ( cast< GEPOperator >( ce )->accumulateConstantOffset( *DL, off ) )
                return json::Object { { "k", "goff" },
                                      { "base", opnd( ce->getOperand( 0 ) ) },
                                      { "off", off.getSExtValue() } };
        }
        if ( ce->isCast() )
            return opnd( ce->getOperand( 0 ) );
    }
    if ( c->isZeroValue() )
        return json::Object { { "k", "c" }, { "v", "0" }, { "w", bitsOf( c->getType() ) } };
    std::string        s;
    raw_string_ostream os( s );
    c->print( os );
    return json::Object { { "k", "const?" }, { "v", os.str() }, { "w", bitsOf( c->getType() ) } };
}

static json::Value opnd( const Value* v )
{
    if ( auto* c = dyn_cast< Constant >( v ) )
        return constOpnd( c );
    auto it = ids.find( v );
    if ( it != ids.end() )
        return json::Object { { "k", "v" }, { "v", it->second } };
    return json::Object { { "k", "?" } };
}

static json::Value loc( const Instruction& I )
{
    json::Array chain;
    for ( const DILocation* d = I.getDebugLoc().get(); d; d = d->getInlinedAt() ) {
        std::string fn;
        if ( auto* sp = d->getScope()->getSubprogram() )
            fn = sp->getName().str();
        chain.push_back( json::Array { d->getFilename(), (int64_t)d->getLine(), fn } );
    }
    return chain;
}

static json::Value scev( const SCEV* s )
{
    if ( auto* c = dyn_cast< SCEVConstant >( s ) ) {
        SmallString< 40 > t;
        c->getAPInt().toStringSigned( t );
        return json::Object { { "k", "c" }, { "v", t.str().str() } };
    }
    if ( auto* u = dyn_cast< SCEVUnknown >( s ) )
        return json::Object { { "k", "u" }, { "v", opnd( u->getValue() ) } };
    if ( auto* n = dyn_cast< SCEVNAryExpr >( s ) ) {
        json::Array a;
        for ( auto* o : n->operands() )
            a.push_back( scev( o ) );
        const char* k = "nary";
        switch ( s->getSCEVType() ) {
        case scAddExpr:    k = "add"; break;
        case scMulExpr:    k = "mul"; break;
        case scAddRecExpr: k = "rec"; break;
        case scUMaxExpr:   k = "umax"; break;
        case scUMinExpr:   k = "umin"; break;
        case scSMaxExpr:   k = "smax"; break;
        case scSMinExpr:   k = "smin"; break;
        default:           break;
        }
        return json::Object { { "k", k }, { "a", std::move( a ) } };
    }
    if ( auto* c = dyn_cast< SCEVCastExpr >( s ) )
        return json::Object { { "k", "cast" }, { "a", json::Array { scev( c->getOperand() ) } } };
    if ( auto* d = dyn_cast< SCEVUDivExpr >( s ) )
        return json::Object { { "k", "udiv" }, { "a", json::Array { scev( d->getLHS() ), scev( d->getRHS() ) } } };
    return json::Object { { "k", "?" } };
}

static json::Object dumpInst( Instruction& I )
{
    json::Object o;
    auto         it = ids.find( &I );
    if ( it != ids.end() )
        o[ "id" ] = it->second;
    o[ "op" ]  = I.getOpcodeName();
    o[ "ty" ]  = tyStr( I.getType() );
    o[ "w" ]   = bitsOf( I.getType() );
    o[ "loc" ] = loc( I );
    auto ops   = [ & ]() {
        json::Array a;
        for ( auto& u : I.operands() )
            if ( !isa< BasicBlock >( u.get() ) )
                a.push_back( opnd( u.get() ) );
        return a;
    };
    if ( auto* l = dyn_cast< LoadInst >( &I ) ) {
        o[ "ptr" ]   = opnd( l->getPointerOperand() );
        o[ "order" ] = l->isAtomic() ? toIRString( l->getOrdering() ) : "na";
    } else if ( auto* s = dyn_cast< StoreInst >( &I ) ) {
        o[ "ptr" ]   = opnd( s->getPointerOperand() );
        o[ "val" ]   = opnd( s->getValueOperand() );
        o[ "vw" ]    = bitsOf( s->getValueOperand()->getType() );
        o[ "order" ] = s->isAtomic() ? toIRString( s->getOrdering() ) : "na";
    } else if ( auto* c = dyn_cast< AtomicCmpXchgInst >( &I ) ) {
        o[ "ptr" ]   = opnd( c->getPointerOperand() );
        o[ "cmp" ]   = opnd( c->getCompareOperand() );
        o[ "new" ]   = opnd( c->getNewValOperand() );
        o[ "vw" ]    = bitsOf( c->getCompareOperand()->getType() );
        o[ "order" ] = toIRString( c->getSuccessOrdering() );
        o[ "forder" ] = toIRString( c->getFailureOrdering() );
        o[ "weak" ]  = c->isWeak();
    } else if ( auto* r = dyn_cast< AtomicRMWInst >( &I ) ) {
        o[ "ptr" ]   = opnd( r->getPointerOperand() );
        o[ "val" ]   = opnd( r->getValOperand() );
        o[ "rmw" ]   = AtomicRMWInst::getOperationName( r->getOperation() );
        o[ "order" ] = toIRString( r->getOrdering() );
    } else if ( auto* n = dyn_cast< FenceInst >( &I ) ) {
        o[ "order" ] = toIRString( n->getOrdering() );
    } else if ( auto* g = dyn_cast< GetElementPtrInst >( &I ) ) {
        unsigned                   bw = DL->getIndexTypeSizeInBits( g->getType() );
        MapVector< Value*, APInt > var;
        APInt                      off( bw, 0 );
        o[ "base" ] = opnd( g->getPointerOperand() );
        if ( g->collectOffset( *DL, bw, var, off ) ) {
            o[ "off" ] = off.getSExtValue();
            json::Array a;
            for ( auto& kv : var )
                a.push_back( json::Array { opnd( kv.first ), kv.second.getSExtValue() } );
            o[ "var" ] = std::move( a );
        }
    } else if ( auto* p = dyn_cast< PHINode >( &I ) ) {
        json::Array a;
        for ( unsigned i = 0; i < p->getNumIncomingValues(); ++i )
            a.push_back( json::Array { ids[ p->getIncomingBlock( i ) ], opnd( p->getIncomingValue( i ) ) } );
        o[ "in" ] = std::move( a );
    } else if ( auto* cb = dyn_cast< CallBase >( &I ) ) {
        json::Array a;
        for ( auto& u : cb->args() )
            a.push_back( opnd( u.get() ) );
        o[ "args" ] = std::move( a );
        if ( auto* f = cb->getCalledFunction() )
            o[ "callee" ] = f->getName();
        else if ( cb->isInlineAsm() )
            o[ "callee" ] = "#asm";
        else
            o[ "callee" ] = "#indirect";
        o[ "nounwind" ] = cb->doesNotThrow();
        o[ "noreturn" ] = cb->doesNotReturn();
        if ( auto* inv = dyn_cast< InvokeInst >( &I ) ) {
            o[ "normal" ] = ids[ inv->getNormalDest() ];
            o[ "unwind" ] = ids[ inv->getUnwindDest() ];
        }
        if ( auto* m = dyn_cast< MemIntrinsic >( &I ) )
            o[ "mem" ] = isa< MemSetInst >( m ) ? "memset" : isa< MemMoveInst >( m ) ? "memmove" : "memcpy";
    } else if ( auto* ic = dyn_cast< ICmpInst >( &I ) ) {
        o[ "pred" ] = ICmpInst::getPredicateName( ic->getPredicate() );
        o[ "ops" ]  = ops();
        o[ "ow" ]   = bitsOf( ic->getOperand( 0 )->getType() );
    } else if ( auto* br = dyn_cast< BranchInst >( &I ) ) {
        if ( br->isConditional() )
            o[ "cond" ] = opnd( br->getCondition() );
        json::Array a;
        for ( unsigned i = 0; i < br->getNumSuccessors(); ++i )
            a.push_back( ids[ br->getSuccessor( i ) ] );
        o[ "succ" ] = std::move( a );
    } else if ( auto* sw = dyn_cast< SwitchInst >( &I ) ) {
        o[ "cond" ]    = opnd( sw->getCondition() );
        o[ "default" ] = ids[ sw->getDefaultDest() ];
        json::Array a;
        for ( auto& cs : sw->cases() )
            a.push_back( json::Array { opnd( cs.getCaseValue() ), ids[ cs.getCaseSuccessor() ] } );
        o[ "cases" ] = std::move( a );
    } else if ( auto* ev = dyn_cast< ExtractValueInst >( &I ) ) {
        json::Array a;
        for ( unsigned i : ev->indices() )
            a.push_back( (int64_t)i );
        o[ "idx" ] = std::move( a );
        o[ "ops" ] = ops();
    } else if ( auto* iv = dyn_cast< InsertValueInst >( &I ) ) {
        json::Array a;
        for ( unsigned i : iv->indices() )
            a.push_back( (int64_t)i );
        o[ "idx" ] = std::move( a );
        o[ "ops" ] = ops();
    } else if ( auto* al = dyn_cast< AllocaInst >( &I ) ) {
        auto sz      = al->getAllocationSize( *DL );
        o[ "bytes" ] = sz ? (int64_t)sz->getFixedValue() : -1;
        o[ "aty" ]   = tyStr( al->getAllocatedType() );
    } else {
        o[ "ops" ] = ops();
        if ( auto* ci = dyn_cast< CastInst >( &I ) )
            o[ "ow" ] = bitsOf( ci->getSrcTy() );
    }
    return o;
}

int main( int argc, char** argv )
{
    LLVMContext  ctx;
    SMDiagnostic err;
    auto         M = parseIRFile( argv[ 1 ], err, ctx );
    if ( !M ) {
        err.print( argv[ 0 ], errs() );
        return 2;
    }
    std::string prefix = argv[ 2 ];
    std::string keep   = argc > 3 ? argv[ 3 ] : "";
    DL                 = &M->getDataLayout();

    std::set< std::string > entries;
    for ( auto& F : *M ) {
        if ( F.isDeclaration() )
            continue;
        // KEEP: members of the standard's atomic with this name stay calls
        if ( !keep.empty() && F.getName().contains( keep ) && F.getName().starts_with( "_ZNKSt" ) && F.getName().contains( "atomic" ) ) {
            F.deleteBody();
            F.setComdat( nullptr );
            continue;
        }
        if ( F.getName().starts_with( prefix ) ) {
            entries.insert( F.getName().str() );
            F.removeFnAttr( Attribute::OptimizeNone );
            F.setLinkage( GlobalValue::ExternalLinkage );
            continue;
        }
        F.removeFnAttr( Attribute::NoInline );
        F.removeFnAttr( Attribute::OptimizeNone );
        F.addFnAttr( Attribute::AlwaysInline );
        F.setLinkage( GlobalValue::InternalLinkage );
        F.setComdat( nullptr );
    }
    // the library's own terminate helper must not be inlined away into nothing
    if ( auto* f = M->getFunction( "__clang_call_terminate" ) ) {
        f->removeFnAttr( Attribute::AlwaysInline );
    }

    // a volatile access means the same to the analysis as a plain one
    for ( auto& F : *M )
        for ( auto& I : instructions( F ) ) {
            if ( auto* L = dyn_cast< LoadInst >( &I ) )
                L->setVolatile( false );
            else if ( auto* S = dyn_cast< StoreInst >( &I ) )
                S->setVolatile( false );
        }

    LoopAnalysisManager     LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager    CGAM;
    ModuleAnalysisManager   MAM;
    PassBuilder             PB;
    PB.registerModuleAnalyses( MAM );
    PB.registerCGSCCAnalyses( CGAM );
    PB.registerFunctionAnalyses( FAM );
    PB.registerLoopAnalyses( LAM );
    PB.crossRegisterProxies( LAM, FAM, CGAM, MAM );

    ModulePassManager MPM;
    MPM.addPass( AlwaysInlinerPass( false ) );
    FunctionPassManager FPM;
    FPM.addPass( SROAPass( SROAOptions::ModifyCFG ) );
    FPM.addPass( InstSimplifyPass() );
    FPM.addPass( SCCPPass() );
    FPM.addPass( SimplifyCFGPass() );
    FPM.addPass( EarlyCSEPass( false ) );
    FPM.addPass( SROAPass( SROAOptions::ModifyCFG ) );
    FPM.addPass( PromotePass() );
    FPM.addPass( InstSimplifyPass() );
    FPM.addPass( SimplifyCFGPass() );
    FPM.addPass( ADCEPass() );
    FPM.addPass( LoopSimplifyPass() );
    MPM.addPass( createModuleToFunctionPassAdaptor( std::move( FPM ) ) );
    MPM.run( *M, MAM );

    json::Object funcs;
    std::set< std::string > externs;
    for ( auto& F : *M ) {
        if ( F.isDeclaration() || !entries.count( F.getName().str() ) )
            continue;
        ids.clear();
        unsigned n = 0;
        json::Array args;
        for ( auto& A : F.args() ) {
            std::string id = "a" + std::to_string( A.getArgNo() );
            ids[ &A ]      = id;
            args.push_back( json::Object { { "id", id }, { "ty", tyStr( A.getType() ) }, { "w", bitsOf( A.getType() ) } } );
        }
        for ( auto& B : F ) {
            ids[ &B ] = "b" + std::to_string( n++ );
        }
        n = 0;
        for ( auto& I : instructions( F ) )
            if ( !I.getType()->isVoidTy() )
                ids[ &I ] = "v" + std::to_string( n++ );

        auto& LI = FAM.getResult< LoopAnalysis >( F );
        auto& SE = FAM.getResult< ScalarEvolutionAnalysis >( F );

        json::Array blocks;
        for ( auto& B : F ) {
            json::Array insts;
            for ( auto& I : B ) {
                if ( isa< DbgInfoIntrinsic >( &I ) )
                    continue;
                insts.push_back( dumpInst( I ) );
            }
            json::Object b { { "id", ids[ &B ] }, { "insts", std::move( insts ) } };
            if ( Loop* L = LI.getLoopFor( &B ) ) {
                b[ "loop" ] = ids[ L->getHeader() ];
                if ( L->getHeader() == &B ) {
                    b[ "header" ] = true;
                    b[ "depth" ]  = (int64_t)L->getLoopDepth();
                    b[ "btc" ]    = scev( SE.getBackedgeTakenCount( L ) );
                    if ( Loop* P = L->getParentLoop() )
                        b[ "parent" ] = ids[ P->getHeader() ];
                    json::Array body;
                    for ( auto* BB : L->blocks() )
                        body.push_back( ids[ BB ] );
                    b[ "body" ] = std::move( body );
                }
            }
            blocks.push_back( std::move( b ) );
        }
        std::string subp;
        funcs[ F.getName().str() ]
            = json::Object { { "args", std::move( args ) }, { "blocks", std::move( blocks ) }, { "ret", tyStr( F.getReturnType() ) } };
    }

    // globals (constants used as witness tables) and class layouts from debug info
    json::Object globals;
    for ( auto& G : M->globals() )
        if ( G.hasInitializer() ) {
            if ( auto* ci = dyn_cast< ConstantInt >( G.getInitializer() ) )
                globals[ G.getName().str() ] = ci->getSExtValue();
        }
    json::Object    layouts;
    DebugInfoFinder finder;
    finder.processModule( *M );
    for ( auto* T : finder.types() ) {
        auto* ct = dyn_cast< DICompositeType >( T );
        if ( !ct || ct->isForwardDecl() || ct->getName().empty() )
            continue;
        if ( ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type )
            continue;
        json::Array mem;
        for ( auto* e : ct->getElements() )
            if ( auto* d = dyn_cast< DIDerivedType >( e ) ) {
                if ( d->isStaticMember() )
                    continue;
                if ( d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance )
                    continue;
                std::string tn;
                const DIType* bt = d->getBaseType();
                std::string   kind;
                const DIType* u = bt;
                while ( auto* dt = dyn_cast_or_null< DIDerivedType >( u ) ) {
                    if ( dt->getTag() == dwarf::DW_TAG_pointer_type || dt->getTag() == dwarf::DW_TAG_reference_type ) {
                        kind = "pointer";
                        break;
                    }
                    u = dt->getBaseType();
                }
                if ( kind.empty() && u && u->getTag() == dwarf::DW_TAG_array_type ) {
                    kind = "array";
                    u    = cast< DICompositeType >( u )->getBaseType();
                    while ( auto* dt = dyn_cast_or_null< DIDerivedType >( u ) ) {
                        if ( dt->getTag() == dwarf::DW_TAG_pointer_type ) {
                            kind = "pointer-array";
                            break;
                        }
                        u = dt->getBaseType();
                    }
                }
                std::string uid;
                if ( auto* uc = dyn_cast_or_null< DICompositeType >( u ) )
                    uid = uc->getIdentifier().str();
                mem.push_back( json::Object { { "name", d->getName() },
                                              { "off", (int64_t)( d->getOffsetInBits() / 8 ) },
                                              { "size", (int64_t)( d->getSizeInBits() / 8 ) },
                                              { "kind", kind },
                                              { "tname", u ? u->getName() : StringRef( "" ) },
                                              { "tid", uid },
                                              { "base", d->getTag() == dwarf::DW_TAG_inheritance } } );
            }
        layouts[ ct->getIdentifier().str() ] = json::Object { { "name", ct->getName() },
                                                              { "size", (int64_t)( ct->getSizeInBits() / 8 ) },
                                                              { "members", std::move( mem ) } };
    }
    json::Object out { { "functions", std::move( funcs ) },
                       { "globals", std::move( globals ) },
                       { "layouts", std::move( layouts ) },
                       { "ptrbits", (int64_t)DL->getPointerSizeInBits() } };
    outs() << json::Value( std::move( out ) ) << "\n";
    return 0;
}
